"""C14: cgrep splits a file exactly into matching and non-matching lines, as its matchers say."""
import gen as G
import matchers as X
import model as M
from vf import b2s, s2b

ID = "C14"
QUICK, THOROUGH = 12000, 250000
RULE = ("one case = 1-2 files and 1-3 matchers (every method, modifier, negation, combination; on a column, the whole line, a group of "
        "columns with a quantifier, or comparing columns), combined with AND or OR; cgrep and cgrep --invert are both run, each "
        "output is compared line by line with an independent evaluation, so together they partition the file; locations are "
        "checked when asked for; distinct = (matcher kinds and modifiers, combination, some/none/all matched)")
ASSUMPTIONS = ["regular expressions come from a fixed pool; UTF-8 case folding on letters without special casing"]
UTF = ["é", "É", "Ж", "ж", "日本", "ñ", "a", "B"]


def cell(rng, kind):
    if kind == "utf":
        return "".join(rng.choice(UTF) for _ in range(rng.randint(0, 3))).encode("utf8").decode("latin-1")
    if kind == "blank":
        return rng.choice(["", " ", "  ", "# x", " #", "//", "  // a", "a", " a ", "\x01a\x02", "\x0b", "a\x1f", "a\x7f", "\x01", " \x0ba\r\x01"])
    return G.cell(rng, kind)


def gen(rng, idx, tier):
    w = G.width(rng, 1, 5)
    hdr = rng.random() < 0.6
    names = G.names(rng, w) if hdr else ["c%d" % (i + 1) for i in range(w)]
    asc = rng.random() < 0.6
    pool = ["text", "num", "key", "ip", "blank", "small"]
    kinds = [rng.choice(pool if asc else pool + ["nasty", "utf", "utf"]) for _ in range(w)]
    nf = rng.choice([1, 1, 2]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    files, order, allrows = {}, [], []
    huge = G.huge(rng)
    for i in range(nf):
        rows = []
        for _ in range(max(G.nrows(rng), 0 if hdr else 1)):
            r = [cell(rng, k) for k in kinds]
            if asc:
                r = ["".join(c for c in x if 31 < ord(c) < 127) for x in r]
            if rng.random() < 0.05 and rows:
                r = r[:rng.randint(1, w)]
            # a minus sign before something that is not a number (or is zero): no numeric value to speak of
            r = [M.nozero(x) for x in r]
            if r[0].startswith(" CDX"):
                r[0] = "x"
            rows.append(r)
        allrows += rows[:3000]
        if huge and not i:
            rows += [["%d" % k] for k in range(huge)]
        files["f%d" % i] = G.dump(names if hdr else None, rows, final_nl=rng.random() < 0.9)
        order.append("f%d" % i)
    args, ms = ["cgrep"], []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        t, m = X.line_matcher(rng, names, hdr, allrows, files, asc, "pat%d" % k)
        args.append("--pattern=" + t)
        ms.append(m)
    orr = rng.random() < 0.4
    if orr:
        args.append(rng.choice(["-o", "--or"]))
    loc = None
    if rng.random() < 0.15:
        loc = rng.sample(["bytes", "line", "name", "name.%d" % rng.choice([0, 1, 1, 2, 2, 3, 4])], rng.randint(1, 3))
        if len([x for x in loc if x[:4] == "name"]) > 1:
            loc = ["line", "name.1"]
        lt = []
        ln = []
        for x in loc:
            if rng.random() < 0.5:
                lt.append("loc_%s:%s" % (x[:4], x))
                ln.append("loc_" + x[:4])
            else:
                lt.append(x)
                ln.append("filename" if x[:4] == "name" else x)
        if hdr and rng.random() < 0.05:
            lt[0] = "%s:%s" % (rng.choice(names), loc[0])
            ln[0] = lt[0].split(":")[0]
        if hdr or len(set(ln + names)) == len(ln) + len(names):
            args.append("--location=" + ",".join(lt))
            loc = [loc, ln]
        else:
            loc = None
    if loc and rng.random() < 0.6:
        order = [rng.choice(["", "./", ".//", "././"]) + x for x in order]
    return {"files": files, "args": args, "order": order, "ms": ms, "or": orr, "header": hdr, "loc": loc}


def judge(ctx, case):
    want = {False: [], True: []}
    if case["loc"] and case["header"]:
        names = [b2s(x) for x in G.lines(s2b(case["files"][case["order"][0].split("/")[-1]]))[0].split(b"\t")[1:]]
        if len(set(names + case["loc"][1])) != len(names) + len(case["loc"][1]):
            ctx.bad(case["args"] + case["order"])
            return "clash"
    n = [0, 0]
    for fi, fn in enumerate(case["order"]):
        data = s2b(case["files"][fn.split("/")[-1]])
        ls = G.lines(data)
        pos = 0
        if case["header"]:
            h = ls.pop(0)
            pos = len(h) + 1
            if fi == 0:
                if case["loc"]:
                    h = b"\t".join([b" CDX"] + [s2b(x) for x in case["loc"][1]] + h.split(b"\t")[1:])
                want[False].append(h)
                want[True].append(h)
        for i, l in enumerate(ls):
            r = [X.line_eval(m, l) for m in case["ms"]]
            ok = any(r) if case["or"] else all(r)
            n[ok] += 1
            out = l
            if case["loc"]:
                d = {"bytes": b"%d" % pos, "line": b"%d" % (i + 1), "name": s2b(fn)}
                for x in case["loc"][0]:
                    if x.startswith("name."):
                        # the last parts of the path
                        k = int(x[5:])
                        d[x] = s2b("/".join(fn.split("/")[-k:]) if k else fn)
                out = b"\t".join([d[x] for x in case["loc"][0]] + [l])
            want[not ok].append(out)
            pos += len(l) + 1
    for inv in (False, True):
        r = ctx.good(case["args"] + (["-v"] if inv else []) + case["order"])
        ctx.expect("lines %smatching differ from the model" % ("not " if inv else ""), r.out, b"".join(x + b"\n" for x in want[inv]), r)
    ctx.count("lines_matching", n[1])
    ctx.count("lines_not_matching", n[0])

    def kind(m):
        if "m" in m:
            return "%s:%s:%s:%s:%s" % (m["t"], m["m"]["k"], sorted(m["m"]["mods"]), m["m"].get("multi"), m.get("det"))
        return "%s:%s:%s" % (m["t"], m.get("op"), m.get("comp"))
    if n == [0, 0]:
        return None
    return "%s|%s|%s|%s" % (sorted(kind(m) for m in case["ms"]), case["or"] and len(case["ms"]) > 1, n[0] > 0, n[1] > 0)
