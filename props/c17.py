"""C17: transpose turns rows into columns, and twice is the identity."""
import gen as G
from vf import s2b

ID = "C17"
QUICK, THOROUGH = 6000, 150000
CAP = 30
RULE = ("one case = one file, with or without header, rectangular or with short lines, --head and --lines or not; the output is compared "
        "with the model and, for rectangular files, transposed again, which must give the original; distinct = (shape, options)")
ASSUMPTIONS = ["no line has more columns than the header or first line"]


def gen(rng, idx, tier):
    hdr = rng.random() < 0.5
    w = rng.choice([1, 2, 3, 4, 5, 8, 30])
    n = rng.choice([1, 2, 3, 4, 7, 20, 60])
    if rng.random() < 0.03:
        w, n = rng.choice([(1, 3000), (3, 1100), (300, 3), (1100, 2), (70, 300)])
    if hdr and rng.random() < 0.1:
        n = 0
    names = ["n%d" % i for i in range(w)]
    rows = G.table(rng, w, n)
    for r in rows:
        for i in range(w):
            if r[i].startswith(" CDX"):
                r[i] = "y"
    rect = rng.random() < 0.7
    if not rect:
        rows = [rows[0] if not hdr and rows else []] * (not hdr) + [r[:rng.randint(1, w)] for r in rows[(not hdr):]]
    args = ["transpose"]
    head = rng.random() < 0.3
    if head:
        args.append(rng.choice(["-h", "--head"]))
    lines = None
    if rng.random() < 0.3:
        lines = rng.choice([0, 1, 2, 3, 5, 100, 1000])
        args += ["--lines=%d" % lines] if rng.random() < 0.5 else ["-n", str(lines)]
    return {"files": {"f0": G.dump(names if hdr else None, rows, final_nl=rng.random() < 0.85)}, "args": args, "w": w, "header": hdr,
            "head": head, "lines": lines, "rect": rect}


def judge(ctx, case):
    ls = [l.split(b"\t") for l in G.lines(s2b(case["files"]["f0"]))]
    names = None
    if case["header"]:
        names = ls.pop(0)[1:]
    if case["lines"] is not None:
        ls = ls[:case["lines"]]
    want = []
    for i in range(case["w"]):
        want.append(b"\t".join(([names[i]] if names else []) + [r[i] if i < len(r) else b"" for r in ls]))
    out = b"".join(x + b"\n" for x in want)
    if case["head"]:
        out = b" CDX\t" + out
    r = ctx.good(case["args"] + ["f0"])
    ctx.expect("transposed table differs from the model", r.out, out, r)
    ctx.count("cells", sum(len(x.split(b"\t")) for x in want))
    if case["rect"] and case["lines"] is None and not case["head"] and not case["header"]:
        r2 = ctx.good(["transpose", "-"], stdin=r.out)
        ctx.expect("transposing twice does not give the original", r2.out, b"".join(b"\t".join(x) + b"\n" for x in ls), r2)
        ctx.count("round_trips")
    return "%d|%d|%s|%s|%s|%s" % (case["w"], len(ls), case["header"], case["head"], case["lines"], case["rect"])
