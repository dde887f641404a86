"""C18: wc counts every line, word, character and byte once; totals are the sums."""
import aggs as A
import gen as G
import model as M
from vf import s2b

ID = "C18"
QUICK, THOROUGH = 8000, 200000
CAP = 35
RULE = ("one case = 1-4 files, counters (lines, bytes, chars, words, any aggregator), per file or per column, totals, header and "
        "file-name options and a number format; every cell of the output is compared with an independent count, totals with the sum "
        "over files; distinct = (options, counters, number of files, shapes)")
ASSUMPTIONS = ["a line's bytes include its newline, supplied if missing at the end of a file", "totals are checked for counts and sums",
               "empty (0 byte) files are skipped"]
UTF = ["é", "Ж", "日本", "ñ", "a", "B", " ", "  ", "x y", "12"]


def gen(rng, idx, tier):
    hdr = rng.random() < 0.5
    w = G.width(rng, 1, 4)
    files, order = {}, []
    base = G.names(rng, w)
    utf = rng.random() < 0.3
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        n = rng.choice([0, 1, 2, 4, 9, 30])
        if rng.random() < 0.05:
            n = rng.choice([999, 1000, 1001])
        if not hdr and rng.random() < 0.9:
            n = max(n, 1)
        big = G.huge(rng)
        if big:
            n = 3
        rows = G.table(rng, w, n, ragged=0.15)
        for r in rows:
            for k in range(len(r)):
                if utf:
                    r[k] = "".join(rng.choice(UTF) for _ in range(rng.randint(0, 4))).encode("utf8").decode("latin-1")
                elif rng.random() < 0.3:
                    r[k] = rng.choice(["a b", " a  b c", "x-y z", "  ", "word", "12 34.5"])
            for k in range(len(r)):
                r[k] = "".join(c for c in r[k] if utf or ord(c) < 128)
        if rng.random() < 0.05:
            rows.insert(rng.randint(1, len(rows)) if rows else 0, ["z%d" % k for k in range(rng.choice([20, 63, 64, 65, 130]))])
        if big:
            rows += [rows[-1]] * big if sum(map(len, rows[-1])) < 50 else [["y"]] * big
        names = base if rng.random() < 0.7 else G.names(rng, w)
        rows = [r if not r[0].startswith(" CDX") else ["x"] for r in rows]
        files["f%d" % i] = G.fit(rng, G.dump(names if hdr else None, rows, final_nl=rng.random() < 0.8), rows and not utf)
        order.append("f%d" % i)
    args = ["wc"]
    specs = []
    short = {"-l": ["lines", "count"], "-b": ["bytes", "asum,chars"], "-c": ["chars", "asum,utf8.chars"], "-w": ["words", "asum,swords"],
             "--lines": ["lines", "count"], "--bytes": ["bytes", "asum,chars"], "--chars": ["chars", "asum,utf8.chars"],
             "--words": ["words", "asum,swords"]}
    cols = rng.random() < 0.35
    total = rng.choice(["yes", "no", "maybe", "only", None, None])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.6:
            o = rng.choice(list(short))
            if short[o][0] in [x[0] for x in specs]:
                continue
            args.append(o)
            specs.append(short[o])
        else:
            s = rng.choice(["count", "count,5", "asum,awords", "asum,utf8.awords", "asum,swords", "asum,utf8.swords", "asum,utf8.chars"])
            if total == "no" and cols:
                s = rng.choice([s, "min", "max", "prefix", "suffix", "max,len", "merge,uniq"])
            nm = "agg%d" % len(specs)
            args.append(rng.choice(["-a", "--agg="]) + "%s,%s" % (nm, s))
            specs.append([nm, s])
    if cols:
        args.append(rng.choice(["-C", "--columns"]))
    if total:
        args += [rng.choice(["-t", "--total"]), total]
    wh = rng.choice(["yes", "no", "maybe", None, None])
    if wh:
        args += [rng.choice(["-h", "--with-header"]), wh]
    fl = rng.choice(["yes", "no", "maybe", None, None, None])
    fn = "file"
    if fl:
        if rng.random() < 0.4 and not cols:
            fn = "thefile"
            args.append("--file=%s,%s" % (fl, fn))
        else:
            args.append("--file=" + fl)
    fmt = rng.choice([None, None, "plain", "float", "plain.2", "float.3"])
    if fmt:
        args.append("--format=" + fmt)
    return {"files": files, "order": order, "args": args, "specs": specs, "cols": cols, "total": total or "maybe", "wh": wh or "maybe",
            "fl": fl or "maybe", "fn": fn, "fmt": fmt, "header": hdr}


def judge(ctx, case):
    fm = case["fmt"]

    def fmt(x):
        if not fm:
            return M.fmt_short(x)
        k, _, p = fm.partition(".")
        p = int(p) if p else None
        return M.fmt_plain(x, p) if k == "plain" else M.fmt_float(x, p)
    specs = case["specs"] or ([["bytes", "asum,chars"]] if case["cols"] else [["lines", "count"]])
    groups = []  # [name, values]
    for f in case["order"]:
        d = s2b(case["files"][f])
        ls = G.lines(d)
        if not d:
            continue
        names = None
        if case["header"]:
            names = ls.pop(0).decode().split("\t")[1:]
        if case["cols"]:
            if names is None:
                names = ["c%d" % (i + 1) for i in range(len(ls[0].split(b"\t")))]
            m = []

            def slot(nm):
                for k, g in enumerate(groups):
                    if g[0] == nm:
                        return k
                groups.append([nm, []])
                return len(groups) - 1
            m = [slot(x) for x in names]
            for l in ls:
                for i, v in enumerate(l.split(b"\t")):
                    if i == len(m):
                        m.append(slot("c%d" % (i + 1)))
                    groups[m[i]][1].append(v)
        else:
            groups.append([f, [l + b"\n" for l in ls]])
    many = len(groups) if case["cols"] else len(case["order"])
    only = case["total"] == "only"
    show = {"yes": True, "no": False, "maybe": many > 1 and not only}[case["fl"]]
    totals = {"yes": True, "no": False, "maybe": many > 1, "only": True}[case["total"]]
    head = {"yes": True, "no": False, "maybe": len(specs) > 1 or show}[case["wh"]]
    out = []
    if head and (groups or case["cols"]):
        out.append([b" CDX"] + ([b"column" if case["cols"] else s2b(case["fn"])] if show else []) + [s2b(n) for n, _ in specs])
    sums = [0.0] * len(specs)
    for nm, vals in groups:
        row = [s2b(nm)] if show else []
        for i, (_, s) in enumerate(specs):
            row.append(A.eval(s, vals, fmt))
            if totals:
                sums[i] += float(A.eval(s, vals, lambda x: repr(x)))
        if not only:
            out.append(row)
    if totals:
        out.append(([b"totals"] if show else []) + [fmt(x).encode() for x in sums])
    r = ctx.good(case["args"] + case["order"])
    ctx.expect("counts differ from the model", r.out, b"".join(b"\t".join(x) + b"\n" for x in out), r)
    ctx.count("values_counted", sum(len(v) for _, v in groups))
    ctx.count("totals_lines", int(totals))
    return "%s|%s|%d" % (case["args"][1:], case["header"], len(groups)) if groups else None
