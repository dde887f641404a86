"""C19: binary search finds exactly the lines a scan of the whole file would find."""
import functools

import gen as G
import model as M
from vf import s2b

ID = "C19"
QUICK, THOROUGH = 12000, 250000
CAP = 30
RULE = ("one case = 1-2 files sorted by 1-2 keys (column by name or number, or whole line; plain/lower/num/float/len/ip, reversed or "
        "not), with repeated keys, blank lines, long lines and a missing final newline, one pattern (present, absent, before the "
        "first, after the last), context and file-name options; output compared with a linear scan of the whole file; distinct = "
        "(keys, options, place of the match, number of matches, sizes)")
ASSUMPTIONS = ["the file is sorted by the keys, as documented", "regular, non-empty files (binsearch maps them)"]


def kv(ks, line):
    return [M.method_key(m, line if c is None else M.col(line, c)) for c, m, _ in ks]


def cmpk(ks, a, b):
    for (_, _, rev), x, y in zip(ks, a, b):
        if x != y:
            r = -1 if x < y else 1
            return -r if rev else r
    return 0


def gen(rng, idx, tier):
    nc = G.width(rng, 1, 3)
    hdr = rng.random() < 0.5
    names = G.names(rng, nc)
    nk = rng.choice([1, 1, 1, 1, 2])
    kinds = [rng.choice(["key", "text", "num", "ip", "small", "bignum"]) for _ in range(nc)]
    ks, specs = [], []
    for _ in range(nk):
        c = rng.randrange(nc)
        m = {"num": ["num", "float", "", "num"], "bignum": ["num"], "ip": ["ip", ""]}.get(kinds[c], ["", "", "lower", "len", "plain"])
        m = rng.choice(m)
        rev = rng.random() < 0.25
        mod = m + (".rev" if m else "rev") if rev else m
        if nk == 1 and rng.random() < 0.1:
            m = "" if m in ("num", "float", "ip") else m
            mod = m + (".rev" if m else "rev") if rev else m
            ks.append([None, m, rev])
            specs.append("," + mod if mod else "")
            continue
        ks.append([c, m, rev])
        cs = names[c] if hdr and rng.random() < 0.6 else str(c + 1)
        specs.append(cs + ("," + mod if mod else ""))
    default = False
    if nk == 1 and ks[0] == [0, "", False] and rng.random() < 0.4:
        default = True
    files, order, alll = {}, [], []
    # sometimes the values differ only far from their start
    pre = "".join(rng.choice("aAbBzZ09") for _ in range(rng.choice([7, 8, 9, 31, 64, 65, 130]))) if rng.random() < 0.1 else ""
    for i in range(rng.choice([1, 1, 1, 2])):
        n = rng.choice([1, 2, 3, 4, 5, 8, 15, 40, 100])
        if hdr and rng.random() < 0.05:
            n = 0
        pool = G.table(rng, nc, max(1, rng.randint(1, n or 1)), kinds, close=rng.choice([0, 0.15, 0.5]))
        rows = [rng.choice(pool) if rng.random() < 0.6 else G.table(rng, nc, 1, kinds)[0] for _ in range(n)]
        if rng.random() < 0.2:
            for _ in range(rng.randint(1, 2)):
                rows.append([""])
        if rng.random() < 0.2:
            rows.append([G.cell(rng, kinds[0])])
        rows = [[M.nozero(x) for x in r] for r in rows if not r[0].startswith(" CDX")]
        if pre:
            rows = [[pre + x if kinds[j] in ("text", "key") and rng.random() < 0.9 else x for j, x in enumerate(r[:nc])] for r in rows]
        if rng.random() < 0.1 and rows and kinds[-1] in ("text", "key"):
            r = rng.choice(rows)
            r = list(r)
            r[-1] += "z" * rng.choice([100, 3000])
            rows.append(r)
        ls = [s2b("\t".join(r)) for r in rows]
        ls.sort(key=functools.cmp_to_key(lambda a, b: cmpk(ks, kv(ks, a), kv(ks, b))))
        if not hdr:
            ls = ls or [b"x"]
        alll += ls
        d = b"".join(l + b"\n" for l in ls)
        if rng.random() < 0.25 and ls and ls[-1]:
            d = d[:-1]
        if hdr:
            d = s2b(" CDX\t" + "\t".join(names) + "\n") + d
        files["f%d" % i] = d.decode("latin-1")
        order.append("f%d" % i)
    sub = rng.choice([None, None, ";", "|"])
    pv = []
    base = rng.choice(alll) if alll and rng.random() < 0.75 else None
    for c, m, _ in ks:
        if base is not None:
            v = (base if c is None else M.col(base, c)).decode("latin-1")
        else:
            v = G.cell(rng, kinds[c] if c is not None else "text")
            v = pre + v if c is None or kinds[c] in ("text", "key") else v
        if rng.random() < 0.1:
            v = v[:-1] if rng.random() < 0.5 else v + rng.choice("0")
        if m == "lower" and rng.random() < 0.3:
            v = v.swapcase()
        v = "".join(x for x in v if 32 <= ord(x) < 127 or (x == "\t" and c is None))
        v = M.nozero(v)
        if nk > 1:
            v = v.replace(sub or ",", "")
        if len(v) > 200:
            v = v[:200]
        pv.append(v)
    args = ["binsearch"]
    if not default:
        for s in specs:
            args += ["-k", s]
    if sub:
        args.append("--sub-delim=" + sub)
    ctxt = None
    if rng.random() < 0.4:
        g = [rng.choice([0, 1, 1, 2, 3, 50]) for _ in range(4)]
        k = rng.random()
        if k < 0.3:
            g = [g[0]] * 4
            t = str(g[0])
        elif k < 0.6:
            g = [g[0], g[0], g[1], g[1]]
            t = "%d,%d" % (g[0], g[2])
        elif k < 0.8:
            g = [g[0], g[1], g[0], g[1]]
            t = "%d.%d" % (g[0], g[1])
        else:
            t = "%d.%d,%d.%d" % tuple(g)
        ctxt = g
        args += [rng.choice(["-C", "--context"]), t]
    fname = None
    if rng.random() < 0.25:
        fname = [rng.choice(["fn", "src"]), rng.choice([0, 1, 2])]
        if fname[0] in names:
            fname = None
        else:
            args += ["-H", fname[0] if fname[1] == 0 and rng.random() < 0.7 else "%s:%d" % tuple(fname)]
    return {"files": files, "order": order, "args": args, "ks": ks, "pat": pv, "sub": sub or ",", "ctx": ctxt, "fname": fname, "header": hdr}


def judge(ctx, case):
    ks = case["ks"]
    pk = [M.method_key(m, s2b(v)) for (c, m, _), v in zip(ks, case["pat"])]
    want = []
    sig = []
    for fi, fn in enumerate(case["order"]):
        ls = G.lines(s2b(case["files"][fn]))
        if case["header"]:
            h = ls.pop(0)
            if fi == 0:
                if case["fname"]:
                    h = b" CDX\t" + s2b(case["fname"][0]) + h[4:]
                want.append(h)
        c = [cmpk(ks, kv(ks, l), pk) for l in ls]
        lo = sum(1 for x in c if x < 0)
        hi = lo + sum(1 for x in c if x == 0)
        sig.append("%s%s%d" % (lo == 0, hi == len(ls), min(hi - lo, 4)))
        ctx.count("lines_scanned", len(ls))
        ctx.count("lines_matching", hi - lo)
        if case["ctx"]:
            bm, bn, am, an = case["ctx"]
            b, a = (bm, am) if hi > lo else (bn, an)
            lo, hi = max(0, lo - b), min(len(ls), hi + a)
        for l in ls[lo:hi]:
            want.append(s2b(fn) + b"\t" + l if case["fname"] else l)
    r = ctx.good(case["args"] + ["--", case["sub"].join(case["pat"])] + case["order"])
    ctx.expect("lines found differ from a linear scan", r.out, b"".join(x + b"\n" for x in want), r)
    return "%s|%s|%s|%s|%s" % (ks, case["ctx"] is not None, case["fname"], case["header"], sig)
