"""C01: sort writes every data line exactly once, ordered by the keys, stably."""
import collections

import gen as G
import keys as K
import model as M
from vf import Violation, s2b

ID = "C01"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = 1-3 generated files, 1-3 random keys (column by name/number or whole line; "
        "plain/lower/len/num/float/ip/equal, reversed or not), one `cdx sort` run whose complete output is compared "
        "with a stable sort by an independent model; non-trivial = at least 2 data lines whose order actually changes or "
        "that tie; distinct = (key methods, reverse flags, #files, header?, ties?, missing newline?)")
ASSUMPTIONS = ["numeric columns hold plain decimal numbers without negative zero; keys of other columns are arbitrary bytes"]


def gen_case(rng, tier, unique=False):
    kinds, nm = K.sortable(rng, tier)
    specs, ks = K.pick(rng, kinds, nm)
    nf = rng.choice([1, 1, 2, 3]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    files = {}
    delim = rng.choice(";|~!\t") if rng.random() < 0.15 else "\t"
    for i in range(nf):
        rows = G.table(rng, len(kinds), G.nrows(rng, tier), kinds, ragged=rng.choice([0, 0, 0.2]), close=rng.choice([0, 0.15, 0.5]))
        if unique and rows and rng.random() < 0.7:
            rows = [rng.choice(rows) for _ in rows]
        if delim != "\t":
            rows = [[c.replace(delim, "_") for c in r] for r in rows]
        files["f%d" % i] = G.fit(rng, G.dump(nm, rows, delim, final_nl=rng.random() < 0.8), kinds[-1] in ("text", "nasty") and rows and len(rows[-1]) == len(kinds))
    if not nm and all(len(x.split("\n")[0].split(delim)) == len(kinds) for x in files.values() if x) and rng.random() < 0.3:
        # without a header the columns are called c1, c2 and so on
        specs = [s if k[0] is None else "c" + s for s, k in zip(specs, ks)]
    args = ["sort"]
    if delim != "\t" and (not nm or rng.random() < 0.5):
        args.append("--text-in=m" + delim)
    if unique:
        args.append(rng.choice(["-u", "--unique"]))
    if rng.random() < 0.1:
        args.append("-a")
    if not (specs == [""] and rng.random() < 0.5):
        for s in specs:
            args += ["-k", s]
    stdin = None
    names = sorted(files)
    if nf == 1 and rng.random() < 0.3:
        stdin = files.pop("f0")
        names = [] if rng.random() < 0.5 else ["-"]
    return {"files": files, "stdin": stdin, "args": args + names,
            "names": names, "keys": ks, "header": nm, "unique": unique, "delim": delim}


def gen(rng, idx, tier):
    return gen_case(rng, tier)


def data_of(case):
    hdr = None
    ls = []
    srcs = [s2b(case["files"][n]) if n in case["files"] else s2b(case["stdin"] or "")
            for n in (case["names"] or ["-"])]
    for b in srcs:
        v = G.lines(b)
        if case["header"]:
            if v:
                hdr = v[0]
            v = v[1:]
        ls += v
    return hdr, ls, srcs


def judge(ctx, case):
    r = ctx.good(case["args"], case["stdin"] or b"")
    hdr, ls, srcs = data_of(case)
    keys = K.mk(case["keys"], s2b(case["delim"]))
    got = G.lines(r.out)
    if r.out and not r.out.endswith(b"\n"):
        raise Violation("output does not end in a newline", run=r.brief())
    if hdr is not None:
        ctx.expect("header line not first", got[:1], [hdr], r)
        got = got[1:]
    want = M.sort_lines(keys, ls)
    if case["unique"]:
        want = M.uniq_sorted(keys, want)
    elif collections.Counter(got) != collections.Counter(ls):
        raise Violation("output is not a permutation of the input", lost=repr(list((collections.Counter(ls) - collections.Counter(got)).items())[:5]),
                        invented=repr(list((collections.Counter(got) - collections.Counter(ls)).items())[:5]), run=r.brief())
    ctx.count("lines_checked", len(ls))
    for i in range(1, len(got)):
        if M.compare(keys, got[i - 1], got[i]) > 0:
            raise Violation("adjacent output lines out of order", a=repr(got[i - 1]), b=repr(got[i]), run=r.brief())
        ctx.count("adjacent_pairs_ordered")
    ctx.expect("output differs from the model (stability or choice among equals)", got, want, r)
    if len(ls) < 2 or (ls == want and len(set(ls)) == len(ls)):
        return None
    ties = any(M.compare(keys, want[i - 1], want[i]) == 0 for i in range(1, min(len(want), 40)))
    return "%s|%d|%s|%s|%s" % (",".join("%s%s%s" % ("L" if k[0] is None else "c", k[1], "-" if k[2] else "") for k in case["keys"]),
                               len(case["names"]), bool(hdr), ties, any(s and not s.endswith(b"\n") for s in srcs))
