"""C07: uniq keeps one line per run of adjacent equal lines, the right one, with the right count."""
import gen as G
import keys as K
import model as M
from vf import s2b

ID = "C07"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = one generated file with runs of equal keys, 1-3 random keys, optional --count (position, name) and "
        "--which (first/last/min/max with a comparison); the whole output of `cdx uniq` is compared with the model "
        "(maximal runs, chosen representative, run length); non-trivial = some run longer than 1; distinct = (keys, which, "
        "count position, header?, headerless key?, missing newline?)")
ASSUMPTIONS = ["numeric columns hold plain decimal numbers without negative zero; other columns are arbitrary bytes"]


def gen(rng, idx, tier):
    kinds, nm = K.sortable(rng, tier)
    specs, ks = K.pick(rng, kinds, nm)
    rows = G.table(rng, len(kinds), G.nrows(rng, tier), kinds, ragged=rng.choice([0, 0, 0.15]), close=rng.choice([0, 0.15, 0.5]))
    # make runs: repeat rows, or repeat with other columns changed
    out = []
    for r in rows:
        out.append(r)
        while rng.random() < 0.45:
            q = list(out[-1])
            if rng.random() < 0.7:
                j = rng.randrange(len(kinds))
                if j < len(q):
                    q[j] = G.cell(rng, kinds[j])
                    if q[0].startswith(" CDX"):
                        q[0] = "x"
            out.append(q)
    k = G.huge(rng)
    if k and out and sum(map(len, out[0])) < 200:
        i = rng.randrange(len(out)) if rng.random() < 0.5 else 0
        if sum(map(len, out[i])) < 200:
            out[i:i] = [out[i]] * k
    args = ["uniq"]
    if rng.random() < 0.06:
        specs, ks = [], [[None, "", False]]
    for s in specs:
        args += ["-k", s]
    which, wk = "first", []
    if rng.random() < 0.6:
        which = rng.choice(["first", "last", "min", "max"])
        spec = which.upper() if rng.random() < 0.2 else which
        if which in ("min", "max"):
            s1, wk = K.pick(rng, kinds, nm, whole=True, equal_ok=False)
            s1, wk = s1[:1], wk[:1]
            if s1[0]:
                spec += "," + s1[0]
        args += [rng.choice(["-w", "--which"]), spec]
    cnt = None
    if rng.random() < 0.6:
        pos = rng.choice(["", "begin", "start", "first", "end", "stop", "last"])
        name = rng.choice(["", "num", "tally"]) if not nm or rng.random() < 0.96 else rng.choice(nm)
        args += [rng.choice(["-c", "--count"]), name + ("," + pos if pos or rng.random() < 0.3 else "")]
        cnt = ["end" if pos in ("end", "stop", "last") else "begin", name or "count"]
    data = G.dump(nm, out, final_nl=rng.random() < 0.8)
    case = {"files": {"f": data}, "stdin": None, "keys": ks, "wkeys": wk, "which": which, "count": cnt, "header": nm}
    if rng.random() < 0.3:
        case["files"], case["stdin"] = {}, data
        args += [] if rng.random() < 0.5 else ["-"]
    else:
        args.append("f")
    case["args"] = args
    return case


def representative(which, wk, g):
    if which == "first":
        return g[0]
    if which == "last":
        return g[-1]
    best = g[0]
    for x in g[1:]:
        c = M.compare(wk, best, x)
        if (which == "min" and c > 0) or (which == "max" and c < 0):
            best = x
    return best


def judge(ctx, case):
    if case["header"] and case["count"] and case["count"][1] in case["header"]:
        # two columns of the same name
        ctx.bad(case["args"], case["stdin"] or b"")
        return "clash|%s" % case["count"][0]
    r = ctx.good(case["args"], case["stdin"] or b"")
    data = s2b(case["files"].get("f", case["stdin"] or ""))
    ls = G.lines(data)
    want = []
    cnt = case["count"]
    if case["header"] and ls:
        h = ls.pop(0).split(b"\t")
        if cnt:
            h.insert(1 if cnt[0] == "begin" else len(h), s2b(cnt[1]))
        want.append(b"\t".join(h))
    gs = M.groups(K.mk(case["keys"]), ls)
    wk = K.mk(case["wkeys"] or [[None, "", False]])
    for g in gs:
        line = representative(case["which"], wk, g)
        n = str(len(g)).encode()
        if cnt:
            line = n + b"\t" + line if cnt[0] == "begin" else line + b"\t" + n
        want.append(line)
        ctx.count("runs_checked")
    w = b"".join(x + b"\n" for x in want)
    ctx.expect("uniq output differs from the model", r.out, w, r)
    if all(len(g) == 1 for g in gs):
        return None
    return "%s|%s%s|%s|%s|%s" % (",".join("%s%s%s" % ("L" if k[0] is None else "c", k[1], "-" if k[2] else "") for k in case["keys"]),
                                 case["which"], [k[1:] + [k[0] is None] for k in case["wkeys"]], cnt and cnt[0], bool(case["header"]), data.endswith(b"\n"))
