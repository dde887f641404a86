"""C12: paste puts line N of every file side by side, and says so when the files do not line up."""
import gen as G
from vf import s2b

ID = "C12"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = 1-4 files of equal or different lengths (with, without or mixed headers), an end mode, values for short files, "
        "--last, renames and duplicate handling; the output (header and every line) is compared with the model, or must be an error "
        "where lengths differ under 'exact', names collide or a rename is unused; distinct = (files, end mode, lengths equal?, "
        "options, outcome)")
ASSUMPTIONS = ["input files are not empty (0 bytes)"]


def gen(rng, idx, tier):
    nf = rng.choice([1, 2, 2, 2, 3, 4]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    base = rng.choice([0, 1, 2, 3, 5, 8, 15])
    same = rng.random() < 0.5
    hdr = rng.choice([True, True, False, None])
    files, order, names, counts, heads, firstw = {}, [], [], [], [], []
    pool = G.names(rng, 300)
    dup = rng.random() < 0.35
    for i in range(nf):
        h = hdr if hdr is not None else rng.random() < 0.7
        w = G.width(rng, 1, 3)
        n = base if same else max(0, base + rng.randint(-3, 4))
        if not h:
            n = max(n, 1)
        if dup:
            nm = rng.sample(pool[:max(4, w)], w)
        else:
            nm = [pool.pop() for _ in range(min(w, len(pool)))] or ["z%d" % i]
            w = len(nm)
        rows = G.table(rng, w, n, ragged=0.08)
        if not h:
            w = len(rows[0])
            nm = ["c%d" % (k + 1) for k in range(w)]
        files["f%d" % i] = G.dump(nm if h else None, rows, final_nl=rng.random() < 0.85)
        order.append("f%d" % i)
        names.append(nm)
        heads.append(h)
    args = ["paste"]
    end = rng.choice(["exact", "early", "late", "Late", "Early", "Exact", None])
    if end:
        args += ["-e", end] if rng.random() < 0.5 else ["--end=" + end]
    last = rng.random() < 0.25
    if last:
        args.append(rng.choice(["-l", "--last"]))
    renames, sloppy, dups = [], False, "fail"
    flat = [x for nm in names for x in nm]
    if rng.random() < (0.6 if dup else 0.1) and all(heads):
        for _ in range(rng.randint(1, 2)):
            renames.append([rng.choice(flat), rng.choice(["new1", "new2", "new3", flat[0]])])
        args.append("--rename=" + ",".join("%s.%s" % (a, b) for a, b in renames))
        if rng.random() < 0.4:
            sloppy = True
            args.append(rng.choice(["-R", "--rename-sloppy"]))
    if rng.random() < (0.6 if dup else 0.2):
        dups = rng.choice(["fail", "allow", "numeric"])
        args += [rng.choice(["-D", "--dups"]), dups]
    dflts = []
    total = len(flat)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        v = rng.choice(["NA", "", "0", "x y", "none", "-"])
        if rng.random() < 0.5 or not v:
            if not v:
                v = "Q"
            dflts.append([v, None])
            args.append("--default=" + v)
        else:
            cols = sorted(rng.sample(range(total), rng.randint(1, min(2, total))))
            dflts.append([v, cols])
            args.append("--default=%s,%s" % (v, ",".join(str(c + 1) for c in cols)))
    return {"files": files, "args": args, "order": order, "names": names, "heads": heads, "end": (end or "exact").lower(), "last": last,
            "renames": renames, "sloppy": sloppy, "dups": dups, "dflts": dflts}


def header(case):
    """names, or None if this must be refused"""
    cols = []
    ren = list(case["renames"])
    live = True
    for nm, h in zip(case["names"], case["heads"]):
        live = live and h
        for x in nm:
            if not live or x not in cols:
                cols.append(x)
                continue
            hit = [r for r in ren if r[0] == x]
            if hit:
                if hit[0][1] in cols:
                    return None
                cols.append(hit[0][1])
                ren.remove(hit[0])
            elif case["dups"] == "fail":
                return None
            elif case["dups"] == "allow":
                cols.append(x)
            else:
                k = 1
                while x + str(k) in cols:
                    k += 1
                cols.append(x + str(k))
    if ren and not case["sloppy"]:
        return None
    return cols


def judge(ctx, case):
    tabs = []
    for fn, h in zip(case["order"], case["heads"]):
        ls = G.lines(s2b(case["files"][fn]))
        tabs.append(ls[1:] if h else ls)
    lens = [len(t) for t in tabs]
    names = header(case)
    sig = "%d|%s|%s|%s|%s|%s|%s|%s" % (len(tabs), case["end"], len(set(lens)) == 1, case["heads"], case["last"], case["dups"],
                                       len(case["renames"]), [d[1] is None for d in case["dflts"]])
    uneven = len(set(lens)) > 1 and case["end"] == "exact"
    if names is None or uneven:
        r = ctx.bad(case["args"] + case["order"])
        if names is not None:
            # lines written before the failure are the leading lines of the files
            want = head(case, names) + b"".join(b"\t".join(t[i] for t in tabs) + b"\n" for i in range(min(lens)))
            ctx.expect("what was written before the lengths differed is not the start of the pasted files", want.startswith(r.out), True, r)
            ctx.count("refused_lengths")
        else:
            ctx.count("refused_names")
        return sig + "|refused"
    n = min(lens) if case["end"] == "early" else max(lens)
    vals = []
    total = sum(len(x) for x in case["names"])
    vals = [b""] * total
    for v, cols in case["dflts"]:
        for c in (range(total) if cols is None else cols):
            vals[c] = s2b(v)
    want = [head(case, names)]
    for i in range(n):
        out = []
        pos = 0
        for t, nm in zip(tabs, case["names"]):
            if i < len(t):
                out.append(t[i])
            elif case["last"] and t:
                out.append(t[-1])
            else:
                out += vals[pos:pos + len(nm)]
            pos += len(nm)
        want.append(b"\t".join(out) + b"\n")
    r = ctx.good(case["args"] + case["order"])
    ctx.expect("pasted lines differ from the model", r.out, b"".join(want), r)
    ctx.count("lines_pasted", n)
    ctx.count("short_files_filled", sum(1 for x in lens if x < n))
    return sig if n else None


def head(case, names):
    return b"\t".join([b" CDX"] + [s2b(x) for x in names]) + b"\n" if all(case["heads"]) else b""
