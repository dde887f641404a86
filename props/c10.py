"""C10: cut writes exactly the selected columns, in the order asked for, of every line."""
import re

import colspec as S
import gen as G
import model as M
from vf import s2b

ID = "C10"
QUICK, THOROUGH = 14000, 300000
RULE = ("one case = 1-3 files (header or not, ragged lines, arbitrary bytes) and one `cdx cut` with 1-3 column lists built from numbers, "
        "names, positions from the end, ranges open at either end, exclusions, name matchers and renames, and a duplicate-name "
        "mode; header and every cell are compared with an independent resolver; selections that must be refused are checked for "
        "refusal; distinct = (shapes of the specs, header?, files, dup mode, outcome)")
ASSUMPTIONS = ["columns beyond the width of the header are not asked for"]
DUPS = [None, None, None, "Fail", "Allow", "Numeric", "Numeric"]


def gen(rng, idx, tier):
    w = G.width(rng, 1, 7)
    hdr = rng.random() < 0.7
    names = G.names(rng, w) if hdr else ["c%d" % (i + 1) for i in range(w)]
    if hdr and rng.random() < 0.06:
        for i, n in enumerate(rng.sample(["ñame", "Ünit", "naïve", "日本", "xé", "é", "Жук"], min(w, 7))):
            if rng.random() < 0.5:
                names[i] = n
        rng.shuffle(names)
    nf = rng.choice([1, 1, 1, 1, 2, 3]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    dup = rng.choice(DUPS)
    files, order = {}, []
    perms = []
    for i in range(nf):
        p = list(range(w))
        if i and hdr and rng.random() < 0.4:
            rng.shuffle(p)
        if i and not hdr and rng.random() < 0.2:
            p = list(range(G.width(rng, 1, 7)))
        perms.append(p)
        n = G.nrows(rng)
        if not hdr:
            n = max(n, 1)
        kinds = [rng.choice(["text", "num", "nasty", "key"]) for _ in p]
        rows = G.table(rng, len(p), n, kinds, ragged=rng.choice([0, 0, 0.3]))
        if not hdr:
            rows[0] = [G.cell(rng, k) for k in kinds]
            if rows[0][0].startswith(" CDX"):
                rows[0][0] = "x"
        fn = "f%d" % i
        files[fn] = G.dump([names[j].encode("utf8").decode("latin-1") for j in p] if hdr else None, rows, final_nl=rng.random() < 0.85)
        order.append(fn)
    seed = rng.getrandbits(48)
    args, cols, err = ["cut"], [], None
    if dup:
        args += [rng.choice(["-D", "--dups"]), rng.choice([dup, dup.lower()])]
    lists = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t, c = S.spec(rng, names, hdr, rename=rng.random() < 0.5)
        args.append("--fields=" + t)
        lists.append([t, c])
    if rng.random() < 0.06:
        # something that must be refused
        err = rng.choice(["nosuch", "+%d" % (w + 1), "0", "3-2" if w >= 3 else "2-1" if w == 2 else "nosuch", "1-2-3", "+0", "", "one:",
                          "(exact,one", "1,,2"])
        args.append("--fields=" + err)
    return {"files": files, "args": args + order, "order": order, "names": names, "header": hdr, "perms": perms,
            "lists": lists, "dup": (dup or "Fail").lower(), "bad": err, "seed": seed}


def reresolve(text, names):
    """columns of a spec for another column order: independent evaluation of the spec text"""
    yes, no, anyyes = [], set(), False
    w = len(names)

    def one(s):
        if s.startswith("+"):
            n = int(s[1:])
            if not 1 <= n <= w:
                raise S.Bad(s)
            return w - n
        if s[0].isdigit():
            return int(s) - 1
        if s not in names:
            raise S.Bad(s)
        return names.index(s)

    parts, depth, cur = [], 0, ""
    for ch in text:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    parts.append(cur)
    for p in parts:
        neg = p.startswith("~")
        p = p[1:] if neg else p
        nm = ""
        if ":" in p:
            nm, p = p.split(":", 1)
        if p.startswith("("):
            k, _, arg = p[1:-1].partition(",")
            inv = k.startswith("not.")
            k = k[4:] if inv else k
            if k == "glob":
                rx = S.glob_re(arg)
                f = lambda x: bool(rx.match(x))
            elif k == "regex":
                f = lambda x: bool(re.search(arg.replace("$", r"\Z"), x))
            elif k == "exact":
                f = lambda x: x == arg
            elif k == "prefix":
                f = lambda x: x.startswith(arg)
            elif k == "suffix":
                f = lambda x: x.endswith(arg)
            elif k == "infix":
                f = lambda x: arg in x
            else:
                a, b = map(int, arg.split(","))
                f = lambda x: a <= len(x) <= b
            cols = [i for i, x in enumerate(names) if bool(f(x)) != inv]
        elif "-" in p:
            a, b = p.split("-")
            a = one(a) if a else 0
            b = one(b) if b else w - 1
            if a > b:
                raise S.Bad(p)
            cols = list(range(a, b + 1))
        else:
            cols = [one(p)]
        if neg:
            no |= set(cols)
        else:
            anyyes = True
            yes += [(c, nm) for c in cols]
    return S.resolve(yes, no, anyyes, w)


def judge(ctx, case):
    want = []
    bad = case["bad"] is not None
    first = None
    shape = []
    try:
        for fn, p in zip(case["order"], case["perms"]):
            nm = [case["names"][j] for j in p] if case["header"] else ["c%d" % (j + 1) for j in p]
            cols = []
            for t, c in case["lists"]:
                got = reresolve(t, nm)
                if p == list(range(len(case["names"]))):
                    assert [list(x) for x in c] == [list(x) for x in got], (t, c, got)
                cols += got
            if any(c >= len(nm) for c, _ in cols):
                return None
            head = S.header(cols, nm, case["dup"])
            if case["header"] and not head:
                bad = True
            if first is None:
                first = head
                if case["header"]:
                    want.append(b"\t".join([b" CDX"] + [x.encode("utf8") for x in head]))
            elif case["header"] and head != first:
                bad = True
            ls = G.lines(s2b(case["files"][fn]))
            if case["header"]:
                ls = ls[1:]
            for l in ls:
                want.append(b"\t".join(M.col(l, c) for c, _ in cols))
    except S.Bad:
        bad = True
    shape = "".join(ch if not ch.isalnum() else "n" for ch in ";".join(t for t, _ in case["lists"]))
    shape = shape.replace("nnnn", "n").replace("nn", "n").replace("nn", "n")
    if bad:
        ctx.bad(case["args"])
        ctx.count("refusals")
        return "refused|%s|%s|%s" % (shape, case["dup"], case["bad"])
    r = ctx.good(case["args"])
    ctx.count("lines_compared", len(want))
    ctx.expect("cut output differs from the selected columns", r.out, b"".join(x + b"\n" for x in want), r)
    if len(want) < 2:
        return None
    return "%s|%s|%d|%s" % (shape, case["header"], len(case["order"]), case["dup"])
