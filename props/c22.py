"""C22: the header is written once, first, describes every line, and never influences the data."""
import gen as G
from vf import Violation, s2b

ID = "C22"
QUICK, THOROUGH = 7000, 150000
CAP = 40
RULE = ("one case = 1-3 rectangular files and one tool with random options (columns given by number), run on the files with headers and on the same "
        "files without: the data lines must be the same in both, the header must come first, once, with as many names as every line has columns, and be "
        "absent without headers; files whose headers disagree must be refused; distinct = (tool, options shape, width, file sizes)")
ASSUMPTIONS = ["all lines have the same number of columns; column names are valid and distinct"]
TOOLS = ["sort", "sortu", "merge", "uniq", "uniqc", "agg", "cut", "cuttrans", "expr", "comp", "cgrep", "cat", "catnum", "paste", "join", "sample",
         "samplen", "binsearch"]
MULTI = {"sort", "sortu", "merge", "cut", "cuttrans", "expr", "comp", "cgrep", "cat", "catnum", "sample"}


def gen(rng, idx, tier):
    t = rng.choice(TOOLS)
    w = G.width(rng, 1, 6)
    names = rng.sample(["a", "bb", "key", "val", "x1", "y_2", "zeta", "Q", "n9", "long_column_name"] + ["m%d" % i for i in range(300)], w)
    nf = rng.choice([1, 2, 3]) if t in MULTI else 2 if t in ("paste", "join") else 1
    c = lambda: rng.randint(1, w)
    cells = ["a", "b", "c", "ab", "B", "1", "2", "10", "", "x y", "zz"]
    tabs = []
    n0 = rng.choice([0, 1, 2, 5, 12, 40])
    for i in range(nf):
        n = n0 if t == "paste" else rng.choice([n0, 0, 1, 3, 20])
        tabs.append([[rng.choice(cells) for _ in range(w)] for _ in range(n)])
    for x in tabs:
        if t == "join" and not x or not any(tabs):
            x.append(["k"] * w)
    if t == "paste":
        tabs[1] = [[rng.choice(cells) for _ in range(w)] for _ in tabs[0]]
    if t in ("merge", "join", "binsearch", "agg", "uniq", "uniqc"):
        for x in tabs:
            x.sort(key=lambda r: [s2b(v) for v in r])
    if t == "join":
        for x in tabs:
            seen = set()
            x[:] = [r for r in x if not (r[0] in seen or seen.add(r[0]))]
            x.sort(key=lambda r: s2b(r[0]))
    hn = [list(names) for _ in tabs]
    if t == "paste":
        hn[1] = ["p" + x for x in names]
    if t == "join":
        hn[1] = [names[0]] + ["j" + x for x in names[1:]]
    emits = ""

    def keys(lo=1):
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
            if rng.random() < 0.1:
                out += ["-k", ",expr%s,c%d%sc%d" % (rng.choice(["", ".rev"]), c(), rng.choice("+*-"), c())]
            else:
                out += ["-k", "%d%s" % (c(), rng.choice(["", "", ",lower", ",numeric", ",plain.rev", ",len", ",float", ",rev.len", ",ip", ",numeric.rev"]))]
        return out
    k = keys()
    if t == "sort":
        a = ["sort"] + k
    elif t == "sortu":
        a = ["sort", "-u"] + k
    elif t == "merge":
        a = ["sort", "-m"] + [z for i in range(1, w + 1) for z in ("-k", str(i))]
        a += rng.choice([[], [], ["-A"]]) + rng.choice([[], [], ["-u"]])
    elif t == "uniq":
        a = ["uniq"] + k + rng.choice([[], ["-w", "last"], ["-w", "max,%d" % c()], ["-w", "min,%d" % c()], ["-w", "max,%d,len" % c()], ["-w", "min,%d,numeric.rev" % c()]])
    elif t == "uniqc":
        a = ["uniq"] + k + ["-c", rng.choice(["num", "num,end", "num,begin"])] + rng.choice([[], [], ["-w", "last"], ["-w", "max,%d" % c()]])
    elif t == "agg":
        a = ["uniq"] + k
        reps = set()
        for i in range(rng.randint(1, 4)):
            f = rng.choice(["sum", "mean", "count", "count,5", "max", "min", "min,len", "max,num", "merge", "merge,sort", "merge,sort.uniq", "merge,count", "prefix",
                            "suffix", "asum,chars", "amax,swords", "amin,utf8.chars", "amean,awords"])
            if f.startswith("merge"):
                emits += ","
            pl = rng.choice(["post", "pre", "rep"])
            x = c()
            if pl == "rep" and x not in reps:
                reps.add(x)
                a += ["-a", "%d,%s" % (x, f)]
            else:
                a += ["--agg-" + ("post" if pl == "rep" else pl), "n%d_,%d,%s" % (i + 20, x, f)]
            emits += ".-e"
        if rng.random() < 0.4:
            a += ["-c", rng.choice(["num", "num,end"])]
        if rng.random() < 0.3:
            a += ["-w", rng.choice(["last", "max,%d" % c()])]
    elif t == "cut":
        cs = rng.sample(range(1, w + 1), rng.randint(1, w))
        a = ["cut", "-f", ",".join(map(str, cs))]
        r = rng.random()
        if r < 0.2:
            a = ["cut", "-f", "~%d" % c() if w > 1 else "1"]
        elif r < 0.4:
            a = ["cut", "-f", "%d-%d" % ((lambda x: (x, rng.randint(x, w)))(c()))]
        elif r < 0.5:
            a = ["cut", "-f", "new_name:%d" % c()]
        elif r < 0.6:
            a = ["cut", "-f", "+%d" % c()] + rng.choice([[], ["-f", "nn_:%d" % c()]])
        elif r < 0.7:
            a = ["cut", "-g", "grp_:%d-%d" % ((lambda x: (x, rng.randint(x, w)))(c())), "-f", str(c())]
            emits += ","
        elif r < 0.8:
            a = ["cut", "-D", "allow"] if False else ["cut", "-D", "numeric"]
            for _ in range(rng.randint(2, 4)):
                a += ["-f", str(c())]
    elif t == "cuttrans":
        tr = rng.choice(["upper", "lower", "bytes,1-2", "bytes,2-9", "upper+bytes,1-1", "normspace"])
        a = ["cut", "-f", "%d+%s" % (c(), tr if rng.random() < 0.7 else "to_base64"), "-D", "numeric", "-f", str(c())]
        emits += "=+/"
    elif t == "expr":
        a = ["cut", "-e", "v_:c%d%sc%d" % (c(), rng.choice(["*2+", "-", "/", "<", "^"]), c()), "-f", str(c())]
        emits += ".-e+"
    elif t == "comp":
        a = ["cut", "-c", "v_:<^{%d}-^{%d}>" % (c(), c())]
        emits += "<>-"
        if rng.random() < 0.3:
            a += ["-f", str(c()), "-c", "u_:^{%d}" % c()]
    elif t == "cgrep":
        a = ["cgrep"]
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.7:
                a += ["-p", "%d,%s,%s" % (c(), rng.choice(["exact", "prefix", "suffix", "infix", "exact.not", "infix.case", "glob", "regex"]), rng.choice("ab1"))]
            elif r < 0.85:
                a += ["-p", "[%s,%s],%s,%s" % (rng.choice(["some", "all", "none", "notall", "atleast,1", "exactly,1"]), rng.choice(["1-", str(c()), "1-%d" % c()]), rng.choice(["exact", "prefix", "infix"]), rng.choice("ab1"))]
            else:
                a += ["-p", ",%s,%s" % (rng.choice(["prefix", "infix", "infix.case"]), rng.choice("ab1"))]
        a += rng.choice([[], [], ["-o"]]) + rng.choice([[], [], ["-v"]])
    elif t == "cat":
        a = ["cat"] + rng.choice([[], [], ["-r", "%s,%s" % (rng.choice(["prefix", "infix.case"]), rng.choice("ab1"))]])
    elif t == "catnum":
        a = ["cat", "--number=nn_,%d,%s" % (rng.randint(0, 9), rng.choice(["begin", "end"]))]
        a += rng.choice([[], [], ["-r", "%s,%s" % (rng.choice(["prefix", "infix.case"]), rng.choice("ab1"))]]) + rng.choice([[], [], ["-s", "infix,%s" % rng.choice("ab1")]])
    elif t == "paste":
        a = ["paste"] + rng.choice([[], [], ["-e", "early"], ["-e", "late"], ["-e", "late", "-l"], ["-e", "late", "-d", "dflt"]])
    elif t == "join":
        a = ["join", "-k", "1"]
        if rng.random() < 0.4:
            a += ["--also=%d,un1" % rng.choice([1, 2])]
        if rng.random() < 0.4:
            a += ["-o", ",".join("%d.%d" % (rng.randint(1, 2), c()) for _ in range(rng.randint(1, 4)))]
    elif t == "sample":
        x = rng.randint(1, 5)
        a = ["sample", rng.choice(["--for=%d" % rng.randint(1, 4), "--for=%d,%d" % (rng.randint(1, 4), x), "--for=%d,%d,%d" % (rng.randint(1, 4), x, x + rng.randint(0, 9)),
                                   "--range=%d-%d" % (x, x + rng.randint(0, 4)), "--range=%d,%d-" % (x, x + 2)])]
    elif t == "samplen":
        a = ["sample", "--sample=%d" % rng.randint(2, 9)]
    else:
        a = ["binsearch", "-k", "1"] + rng.choice([[], [], ["-C", str(rng.randint(0, 3))]]) + [rng.choice(["a", "b", "ab", "1"])]
    hdr, plain = {}, {}
    mis = None
    if t in MULTI - {"sortu"} and nf > 1 and rng.random() < 0.25:
        # cut compares what it writes, so columns not selected may differ
        mis = "none" if a[0] == "cut" else rng.choice(["name", "fewer", "none", "more"])
    for i, x in enumerate(tabs):
        hdr["h%d" % i] = G.dump(hn[i], x)
        plain["p%d" % i] = G.dump(None, x)
    if mis:
        j = rng.randint(1, nf - 1)
        nm = list(names)
        if mis == "name":
            nm[rng.randrange(w)] = "other"
        elif mis == "fewer" and w > 1:
            nm.pop()
        elif mis == "none":
            nm = None
        else:
            nm.append("extra")
        x = tabs[j] or [["q"] * w]
        hdr["h%d" % j] = G.dump(nm, x)
    return {"tool": t, "args": a, "nf": nf, "mis": mis, "files": dict(hdr, **plain), "w": w, "sizes": [len(x) for x in tabs],
            "names": names, "emits": emits}


def split(out):
    ls = out.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return ls


def judge(ctx, case):
    a, nf, t = case["args"], case["nf"], case["tool"]
    hf = ["h%d" % i for i in range(nf)]
    pf = ["p%d" % i for i in range(nf)]
    sig = "%s|%s|%d|%s" % (t, a[1:2], case["w"], case["mis"] or case["sizes"])
    if case["mis"]:
        r = ctx.sane(ctx.run(a + hf))
        if r.rc == 0:
            raise Violation("files with different headers (%s) were accepted" % case["mis"], run=r.brief())
        n = sum(l.startswith(b" CDX") for l in split(r.out))
        if n > 1:
            raise Violation("a header was written among the data", run=r.brief())
        ctx.count("refused_mixtures")
        return sig

    def go(fs, un):
        if t == "binsearch":
            r = ctx.good(a + fs)
        else:
            r = ctx.good(a + fs)
        u = None
        if any("un1" in x for x in a):
            u = ctx.read("un1")
        return r, u
    r1, u1 = go(hf, "un1")
    r2, u2 = go(pf, "un1")
    outs = [(r1, r1.out, r2.out)]
    if u1 is not None:
        outs.append((r1, u1, u2))
    for r, o1, o2 in outs:
        l1, l2 = split(o1), split(o2)
        for l in l1[1:] + l2:
            if l.startswith(b" CDX"):
                raise Violation("a header was written among the data, or for files without one", run=r.brief(), without=r2.brief())
        if not l1 or not l1[0].startswith(b" CDX\t"):
            raise Violation("no header was written for files with a header", run=r.brief())
        if l1[1:] != l2:
            raise Violation("data lines depend on the presence of a header", run=r.brief(), without=r2.brief())
        hw = len(l1[0].split(b"\t")) - 1
        for l in l2:
            if len(l.split(b"\t")) != hw:
                raise Violation("the header has %d names for a line of %d columns" % (hw, len(l.split(b"\t"))), run=r.brief())
        hn = l1[0].split(b"\t")[1:]
        if len(set(hn)) != len(hn) and t != "join":
            raise Violation("duplicate names in the header", run=r.brief())
        ctx.count("lines_compared", len(l2))
    ctx.count("tool_" + t)
    return sig
