"""C11: derived columns: transforms, groups and composites have exactly the documented value."""
import base64
import binascii
import re

import gen as G
import matchers as X
import model as M
from vf import s2b, b2s

ID = "C11"
QUICK, THOROUGH = 12000, 250000
RULE = ("one case = a table (arbitrary bytes, UTF-8, base64 text, long values) and one `cdx cut` with 1-3 derived columns: transform chains "
        "(lower, upper, normspace, bytes, to/from base64, UTF-8 variants) over column lists, groups with their own delimiter, "
        "composites; every cell is recomputed by an independent model, undecodable values must be refused; "
        "distinct = (kinds of derivation, header?, outcome)")
ASSUMPTIONS = ["UTF-8 case conversion is compared on a fixed pool of letters"]
UTF = ["é", "É", "Ä", "ñ", "Ж", "ж", "ß", "日本", "Σ", "\u2003", "\u00a0", "a", "B", "xY", " ", "  ", "Q z", "\ufffd"]


def utf(rng):
    return b2s("".join(rng.choice(UTF) for _ in range(rng.randint(0, 5))).encode("utf8"))


def cell(rng, kind):
    if kind == "utf":
        return utf(rng) if rng.random() < 0.85 else utf(rng) + rng.choice(["\xc3", "\xff", "\xe6\x97"])
    if kind == "b64":
        raw = rng.choice([lambda: utf(rng), lambda: G.nasty(rng), lambda: "a\tb", lambda: "x\ny", lambda: "p,q|r"])()
        return b2s(base64.b64encode(s2b(raw)))
    if kind == "space":
        return "".join(rng.choice([" ", "  ", "\x01", "a", "Bc", "d,e", "\r"]) for _ in range(rng.randint(0, 6)))
    if kind == "long":
        return "".join(rng.choice("abcXYZ ,") for _ in range(rng.choice([50, 200, 3000])))
    return G.cell(rng, kind)


def chain(rng, kinds):
    out = []
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 9])
    for i in range(n):
        pool = ["lower", "upper", "lowercase", "uppercase", "normspace", "utf8.lower", "upper.utf8", "utf8.normspace", "to_base64", "bytes"]
        if (i == 0 and kinds == {"b64"}) or (out and out[-1] == "to_base64"):
            pool += ["from_base64"] * 8
        t = rng.choice(pool)
        if t == "bytes":
            ps = []
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(1, 9)
                ps.append(str(a) if rng.random() < 0.5 else "%d-%d" % (a, rng.randint(a, 12)))
            t = "bytes," + ",".join(ps)
        out.append(t)
    return out


class Undecodable(Exception):
    pass


def lossy(b):
    return b.decode("utf8", "replace")


def apply(t, b):
    if t in ("lower", "lowercase"):
        return M.lower(b)
    if t in ("upper", "uppercase"):
        return bytes(c - 32 if 97 <= c <= 122 else c for c in b)
    if t == "normspace":
        return b" ".join(x for x in bytes(32 if c <= 32 else c for c in b).split(b" ") if x)
    if t == "utf8.lower":
        return "".join(c.lower() for c in lossy(b)).encode("utf8")
    if t == "upper.utf8":
        return "".join(c.upper() for c in lossy(b)).encode("utf8")
    if t == "utf8.normspace":
        ws = set(X.WS + "\ufffd")
        return " ".join(x for x in "".join(" " if c in ws else c for c in lossy(b)).split(" ") if x).encode("utf8")
    if t == "to_base64":
        return base64.b64encode(b)
    if t == "from_base64":
        try:
            return base64.b64decode(b, validate=True)
        except binascii.Error:
            raise Undecodable()
    assert t.startswith("bytes,")
    out = b""
    for p in t[6:].split(","):
        a, _, e = p.partition("-")
        out += b[int(a) - 1:int(e or a)]
    return out


def gen_widths(rng):
    """files without headers, of different widths; columns counted from the end"""
    ws = [G.width(rng, 2, 6) for _ in range(rng.randint(2, 4))]
    n = [rng.randint(1, min(ws)) for _ in range(3)]
    files = {}
    for i, w in enumerate(ws):
        rows = [[G.cell(rng, "key") for _ in range(w)] for _ in range(rng.randint(1, 4))]
        files["f%d" % i] = G.dump(None, rows)
    up = rng.random() < 0.5
    return {"files": files, "widths": ws, "n": n, "up": up,
            "args": ["cut", "--composite=k:a^{+%d}-^+%d" % (n[0], n[1]), "-f", "+%d%s" % (n[2], "+upper" if up else "")] + sorted(files)}


def judge_widths(ctx, case):
    want = []
    for i, w in enumerate(case["widths"]):
        for l in G.lines(s2b(case["files"]["f%d" % i])):
            v = l.split(b"\t")
            x = v[-case["n"][2]]
            want.append(b"a" + v[-case["n"][0]] + b"-" + v[-case["n"][1]] + b"\t" + (apply("upper", x) if case["up"] else x))
    r = ctx.good(case["args"])
    ctx.expect("columns counted from the end", r.out, b"".join(x + b"\n" for x in want), r)
    ctx.count("cells_compared", 2 * len(want))
    return "widths|%s|%s" % (case["widths"], case["n"])


def gen(rng, idx, tier):
    if rng.random() < 0.03:
        return gen_widths(rng)
    w = G.width(rng, 1, 5)
    hdr = rng.random() < 0.6
    names = G.names(rng, w) if hdr else ["c%d" % (i + 1) for i in range(w)]
    kinds = [rng.choice(["utf", "b64", "space", "text", "nasty", "b64", "long"]) for _ in range(w)]
    rows = []
    for _ in range(max(1, rng.choice([1, 2, 5, 9, 20]) if rng.random() < 0.98 else 300)):
        r = [cell(rng, k) for k in kinds]
        if r[0].startswith(" CDX"):
            r[0] = "x"
        rows.append(r)
    undec = rng.random() < 0.03 and "b64" in kinds
    if undec:
        rng.choice(rows)[kinds.index("b64")] = rng.choice(["!!not base64", "=", " YQ==", "YQ== ", "YQ", "Y", "YWI", "YW\rI=", "YWJj\r", "a-_b"])
    if rng.random() < 0.2 and len(rows) > 1:
        rows[-1] = rows[-1][:1]
    args, derived = ["cut"], []
    for k in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(["trans", "trans", "trans", "group", "comp"])
        cs = rng.sample(range(w), rng.randint(1, min(3, w)))
        ref = lambda c: names[c] if hdr and rng.random() < 0.5 else str(c + 1) if rng.random() < 0.8 else "+%d" % (w - c)
        if what == "comp":
            name = "k%d" % k
            parts, t = [], ""
            for _ in range(rng.randint(1, 5)):
                if rng.random() < 0.5:
                    lit = rng.choice(["abc", "-", "x y", "^", ".", "=", "{", "}"])
                    if t and t[-1].isalnum() and parts and isinstance(parts[-1], int):
                        lit = "-" + lit
                    parts.append(lit)
                    t += lit.replace("^", "^^")
                else:
                    c = rng.randrange(w)
                    parts.append(c)
                    s = ref(c)
                    t += "^{%s}" % s if rng.random() < 0.6 else "^" + s
                    if not t.endswith("}"):
                        parts.append("/")
                        t += "/"
            args.append("--composite=%s:%s" % (name, t))
            derived.append(["comp", name, parts])
            continue
        ch = []
        kk = {kinds[c] for c in cs}
        if what == "trans" or rng.random() < 0.3:
            ch = chain(rng, kk)
        ref0 = [ref(c) for c in cs]
        spec = ",".join(ref0) + "".join("+" + x for x in ch)
        if what == "trans":
            onm = []
            if any(names[c] in [n for d in derived if d[0] == "trans" for n in d[1]] for c in cs):
                ref0 = ["r%d%d:%s" % (k, i, r) for i, r in enumerate(ref0)]
                spec = ",".join(ref0) + "".join("+" + x for x in ch)
                onm = ["r%d%d" % (k, i) for i in range(len(cs))]
            else:
                onm = [names[c] for c in cs]
            args.append("--fields=" + spec)
            derived.append(["trans", onm, cs, ch])
        else:
            d = rng.choice(",.|;:")
            name = "g%d" % k
            args.append("--group=%s%s:%s" % (d, name, spec))
            derived.append(["group", name, cs, ch, d])
    perm = list(range(w))
    if hdr and rng.random() < 0.15 and w > 1 and not any("+%d" % (i + 1) in a for a in args for i in range(w)):
        # a second file with the columns in another order, found by name
        num = lambda a: [x for x in re.split("[^a-zA-Z0-9_]+", a.split(":", 1)[1] if a[2] in "cg" else re.sub("r[0-9]+:", "", a.split("=", 1)[1].split("+")[0])) if x.isdigit()]
        rng.shuffle(perm)
        if any(num(a) for a in args[1:]):
            perm = list(range(w))
        k = rng.randint(0, len(rows))
        body = rows[k:] if all(len(x) == w for x in rows) else []
        if len(body) == len(rows[k:]):
            return {"files": {"f": G.dump(names, rows[:k]), "g": G.dump([names[j] for j in perm], [[x[j] for j in perm] if not x[perm[0]].startswith(" CDX") else ["x"] for x in body])},
                    "args": args + ["f", "g"], "derived": derived, "header": hdr, "kinds": kinds, "perm": perm}
    if rng.random() < 0.15 and not any("+%d" % (i + 1) in a for a in args for i in range(w)):
        # the same lines in several files
        cuts = [0] + sorted(rng.randint(0, len(rows)) for _ in range(rng.choice([1, 2, 3, 6]))) + [len(rows)]
        if not hdr:
            # every file shows all of its columns in its first line
            cuts = [c for c in cuts if c in (0, len(rows)) or len(rows[c]) == w]
        order = ["f%d" % i for i in range(len(cuts) - 1)]
        return {"files": {f: G.dump(names if hdr else None, rows[cuts[i]:cuts[i + 1]]) for i, f in enumerate(order)}, "args": args + order, "derived": derived,
                "header": hdr, "kinds": kinds, "order": order}
    return {"files": {"f": G.dump(names if hdr else None, rows)}, "args": args + ["f"], "derived": derived, "header": hdr,
            "kinds": kinds}


def plain(b, delim):
    return b.replace(delim, b" ").replace(b"\n", b" ")


def judge(ctx, case):
    if "widths" in case:
        return judge_widths(ctx, case)
    ls = []
    for f in case.get("order", ["f"]):
        ls += G.lines(s2b(case["files"][f]))[1 if case["header"] else 0:]
    want = []
    if case["header"]:
        head = []
        for d in case["derived"]:
            head += d[1] if d[0] == "trans" else [d[1]]
        want.append(b"\t".join([b" CDX"] + [s2b(x) for x in head]))
    bad = False
    cells = 0
    if "g" in case["files"]:
        p = case["perm"]
        for l in G.lines(s2b(case["files"]["g"]))[1:]:
            v = l.split(b"\t")
            ls.append(b"\t".join(v[p.index(i)] if p.index(i) < len(v) else b"" for i in range(len(p))))
    try:
        for l in ls:
            out = []
            for d in case["derived"]:
                if d[0] == "comp":
                    out.append(plain(b"".join(M.col(l, p) if isinstance(p, int) else s2b(p) for p in d[2]), b"\t"))
                    continue
                vals = []
                for c in d[2]:
                    v = M.col(l, c)
                    for t in d[3]:
                        v = apply(t, v)
                    vals.append(v)
                if d[0] == "trans":
                    out += [plain(v, b"\t") for v in vals]
                else:
                    dl = s2b(d[4])
                    out.append(plain(dl.join(plain(v, dl) for v in vals), b"\t"))
            cells += len(out)
            want.append(b"\t".join(out))
    except Undecodable:
        bad = True
    sig = "%s|%s" % ([(d[0], [t.split(",")[0] for t in d[3]] if d[0] != "comp" else len(d[2])) for d in case["derived"]], case["header"])
    if bad:
        ctx.bad(case["args"])
        ctx.count("refusals")
        return "refused|" + sig
    r = ctx.good(case["args"])
    ctx.count("cells_compared", cells)
    ctx.expect("derived columns differ from the model", r.out, b"".join(x + b"\n" for x in want), r)
    return sig
