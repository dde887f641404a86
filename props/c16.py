"""C16: sample writes exactly the lines asked for, in order."""
import gen as G
from vf import s2b

ID = "C16"
QUICK, THOROUGH = 9000, 200000
CAP = 30
RULE = ("one case = 1-3 files and one of --for by,from,to / --range list / --sample N; --for and --range compared exactly with the "
        "model, per file; --sample must give min(N,lines) lines (at least 2), including the first and the last, in input order, each "
        "line at most once, no gap above three times the even spacing; header once; distinct = (mode, parameters class, sizes)")
ASSUMPTIONS = ["without options and away from a terminal the sample is of 24 lines", "a sample of fewer than two lines is a sample of two", "'more or less evenly' = no gap above 3 times the ideal"]


def gen(rng, idx, tier):
    hdr = rng.random() < 0.5
    w = G.width(rng, 1, 3, 0.02)
    names = G.names(rng, w)
    files, order = {}, []
    for i in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 5, 9, 10, 17, 33, 64, 100]) if rng.random() < 0.8 else rng.randint(0, 300)
        if rng.random() < 0.04:
            n = rng.randint(500, 6000)
        if not hdr and rng.random() < 0.9:
            n = max(n, 1)
        if not i:
            n = G.huge(rng) or n
        rows = [["%d" % k] + [G.cell(rng, "text") for _ in range(w - 1)] for k in range(n)]
        if rng.random() < 0.3:
            rows = [r[:rng.randint(1, w)] for r in rows]
        files["f%d" % i] = G.fit(rng, G.dump(names if hdr else None, rows, final_nl=rng.random() < 0.8), rows)
        order.append("f%d" % i)
    k = rng.random()
    if k < 0.35:
        big = lambda *c: rng.randint(1, 400) if rng.random() < 0.25 else rng.choice(c)
        v = [big(1, 2, 3, 5, 10)]
        if rng.random() < 0.7:
            v.append(big(1, 2, 3, 7, 50))
            if rng.random() < 0.7:
                v.append(big(1, 2, 5, 10, 20, 1000))
        return {"files": files, "order": order, "header": hdr, "mode": "for", "v": v,
                "args": ["sample", rng.choice(["--for=", "-f"]) + ",".join(map(str, v))]}
    if k < 0.65:
        v = []
        for _ in range(rng.choice([1, 2, 3, 4, 9, 40])):
            a = rng.randint(1, 400) if rng.random() < 0.2 else rng.choice([1, 1, 2, 3, 4, 5, 9, 10, 30])
            v.append([a, a + rng.choice([0, 0, 1, 3, 10, 100])])
        t = ",".join(str(a) if a == b and rng.random() < 0.8 else "%d-%d" % (a, b) for a, b in v)
        return {"files": files, "order": order, "header": hdr, "mode": "range", "v": v, "args": ["sample", rng.choice(["--range=", "-r"]) + t]}
    n = rng.randint(2, 300) if rng.random() < 0.3 else rng.choice([1, 2, 2, 3, 4, 5, 7, 10, 24, 100])
    if rng.random() < 0.1:
        # a screenful, which is 24 lines away from any terminal
        return {"files": files, "order": order, "header": hdr, "mode": "sample", "v": 24, "args": ["sample"]}
    return {"files": files, "order": order, "header": hdr, "mode": "sample", "v": n, "args": ["sample", "--sample=%d" % n]}


def judge(ctx, case):
    r = ctx.good(case["args"] + case["order"])
    head, tabs = b"", []
    for fn in case["order"]:
        ls = G.lines(s2b(case["files"][fn]))
        if case["header"] and ls:
            head = ls.pop(0) + b"\n"
        tabs.append(ls)
    ctx.count("lines_offered", sum(map(len, tabs)))
    if case["mode"] in ("for", "range"):
        want = [head]
        for ls in tabs:
            for i, l in enumerate(ls, 1):
                if case["mode"] == "for":
                    by, fr, to = (case["v"] + [1, 1 << 60])[:3] if len(case["v"]) == 1 else (case["v"] + [1 << 60])[:3]
                    ok = fr <= i <= to and (i - fr) % by == 0
                else:
                    ok = any(a <= i <= b for a, b in case["v"])
                if ok:
                    want.append(l + b"\n")
        ctx.expect("sampled lines differ from the model", r.out, b"".join(want), r)
        return "%s|%s|%s|%s" % (case["mode"], case["v"], case["header"], [min(len(t), 20) for t in tabs]) if len(want) > 1 else None
    got = G.lines(r.out)
    if head:
        ctx.expect("header missing", got[:1], [head[:-1]], r)
        got = got[1:]
    n = max(2, case["v"])
    pos = 0
    for ls in tabs:
        k = min(n, len(ls))
        part = got[pos:pos + k]
        pos += k
        ctx.expect("too few lines sampled", len(part), k, r)
        if not k:
            continue
        where = []
        at = 0
        for l in part:
            try:
                at = ls.index(l, at)
            except ValueError:
                ctx.expect("a sampled line is not in the file, or out of order", l, "a line after the previous one", r)
            where.append(at)
            at += 1
        # cell 0 is the line number, so every line is distinct
        ctx.expect("first line not sampled", where[0], 0, r)
        ctx.expect("last line not sampled", where[-1], len(ls) - 1, r)
        if k > 1:
            ideal = (len(ls) - 1) / (k - 1)
            gap = max(b - a for a, b in zip(where, where[1:]))
            ctx.expect("sample far from evenly spaced", gap <= 3 * ideal + 1, True, r)
    ctx.expect("too many lines sampled", len(got), pos, r)
    return "sample|%d|%s" % (n, [min(len(t), 40) for t in tabs])
