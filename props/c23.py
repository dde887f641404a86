"""C23: the same result however the input is stored and delivered."""
import gzip
import io
import random
import zlib

import c22
import shim
from vf import Violation, s2b

ID = "C23"
QUICK, THOROUGH = 12000, 200000
CAP = 40
RULE = ("one case = a tool with random options and 1-3 files; it runs once on plain files and once with every file stored and delivered "
        "another way (standard input, inline text, gzip of one or several members and any level, no final newline) while an interposed shim splits "
        "reads and writes into pieces of random sizes; outputs must be identical; distinct = (tool, ways, header, size class, split pattern class)")
ASSUMPTIONS = ["a missing final newline is not compared for cat, which copies it by default, nor for a merge of a single file, which is a copy", "file names are not part of the output compared"]
TOOLS = c22.TOOLS + ["transpose", "wc", "wcl", "verify"]


def prepare(tier):
    shim.build()


def gz(rng, data):
    r = rng.random()
    if r < 0.5:
        parts = [data]
    else:
        cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.choice([1, 1, 2, 5])))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        if rng.random() < 0.3:
            parts.insert(rng.randint(0, len(parts)), b"")
    out = b""
    for p in parts:
        f = io.BytesIO()
        name = rng.choice(["", "x", "some_name.txt"])
        with gzip.GzipFile(name, "wb", rng.choice([0, 1, 6, 9]), f, mtime=rng.choice([0, 1600000000])) as g:
            g.write(p)
        out += f.getvalue()
    return out


def inline(data):
    rng = random.Random(len(data))
    out, t = "<<", data.decode("ascii")
    for i, c in enumerate(t):
        if c in "\n\t":
            c = {"\n": "\\n", "\t": "\\t"}[c]
        elif c == " ":
            c = rng.choice([" ", "\\s", "\\ "])
        elif c == "\\":
            c = "\\\\" if i < len(t) - 1 or rng.random() < 0.5 else c
        elif c not in "nts" and rng.random() < 0.04:
            c = "\\" + c
        out += c
    return out


def split_lines(d):
    return d.split("\n")[:-1]


def gen(rng, idx, tier):
    while True:
        base = c22.gen(rng, idx, tier)
        if not base["mis"] and base["tool"] != "binsearch":
            break
    t, a, nf = base["tool"], base["args"], base["nf"]
    pre = rng.choice("hp")
    datas = [base["files"]["%s%d" % (pre, i)] for i in range(nf)]
    if rng.random() < 0.25:
        nf = 1
        datas = datas[:1]
        t = rng.choice(["transpose", "wc", "wcl", "verify"])
        w = base["w"]
        a = {"transpose": ["transpose"], "wc": ["wc", "--columns=1"], "wcl": ["wc", "-l", "-b", "-w"],
             "verify": ["verify", "--sort", "-k", "1"]}[t]
        if t == "wc":
            a = ["wc"]
        if t == "wcl":
            a = ["wc", "-l", "-w"]
    big = rng.random() < 0.3
    if big:
        k = rng.choice([20, 100, 400])
        if t == "transpose":
            k = 20
        if t == "wc" or True:
            out = []
            for d in datas:
                ls = split_lines(d)
                h = ls[:1] if pre == "h" else []
                out.append("".join(x + "\n" for x in h) + "".join((x + "\n") * k for x in ls[len(h):]))
            datas = out
    ways = []
    used_stdin = False
    files = {}
    args2 = []
    stdin = ""
    for i, d in enumerate(datas):
        files["f%d" % i] = d
        opts = ["file", "gz", "gz"]
        if not used_stdin:
            opts += ["stdin", "stdin", "gzstdin"]
        if len(d) < 4000:
            opts += ["inline"]
        wy = rng.choice(opts)
        data = d
        body = d.split("\n", 1)[1] if pre == "h" else d
        if rng.random() < 0.3 and t not in ("cat", "catnum", "wcl", "wc") and (t != "merge" or nf > 1) and len(body) > 1 and body[-2] not in "\t\n":
            if wy == "inline" and rng.random() < 0.4:
                # a lone backslash at the end of the text stands for itself
                d = d[:-1] + "\\\n"
                files["f%d" % i] = d
            data = d[:-1]
            wy += "-nonl"
        if wy.startswith("file"):
            files["g%d" % i] = data
            args2.append("g%d" % i)
        elif wy.startswith("gzstdin"):
            stdin = gz(rng, s2b(data)).decode("latin-1")
            args2.append("-")
            used_stdin = True
        elif wy.startswith("gz"):
            files["g%d" % i] = gz(rng, s2b(data)).decode("latin-1")
            args2.append("g%d" % i)
        elif wy.startswith("stdin"):
            stdin = data
            args2.append("-")
            used_stdin = True
        else:
            args2.append(inline(s2b(data)))
        ways.append(wy)
    if nf == 1 and args2 == ["-"] and rng.random() < 0.5:
        args2 = []

    def sizes():
        r = rng.random()
        if r < 0.25:
            return None
        if r < 0.5 and not big:
            return "1"
        top = rng.choice([5, 20, 200, 5000])
        return ",".join(str(rng.randint(1, top) + (top // 4 if big else 0)) for _ in range(rng.randint(1, 12)))
    return {"tool": t, "args": a, "files": files, "args1": ["f%d" % i for i in range(nf)], "args2": args2, "stdin": stdin, "ways": ways,
            "pre": pre, "big": big, "rmax": sizes(), "wmax": sizes()}


def judge(ctx, case):
    a = case["args"]
    r1 = ctx.sane(ctx.run(a + case["args1"]))
    u = any("un1" in x for x in a)
    u1 = ctx.read("un1") if u and r1.rc == 0 else None
    r2 = ctx.sane(ctx.run(a + case["args2"], s2b(case["stdin"]), env=shim.env(ctx, rmax=case["rmax"], wmax=case["wmax"])))
    o1, o2 = r1.out, r2.out
    if case["tool"] in ("wc", "wcl", "verify"):
        # these name the file
        strip = lambda o: b"\n".join(b"\t".join(x for x in l.split(b"\t") if x.strip(b"0123456789") == b"") for l in o.split(b"\n"))
        o1, o2 = strip(o1), strip(o2)
    if r1.rc != r2.rc:
        raise Violation("exit status depends on how the input is delivered (%s)" % case["ways"], plain=r1.brief(), other=r2.brief())
    ctx.expect("output depends on how the input is stored or delivered (%s)" % case["ways"], o2, o1, r2, plain=r1.brief())
    if u1 is not None:
        ctx.expect("unmatched lines depend on how the input is stored or delivered", ctx.read("un1"), u1, r2)
    m = shim.mark(ctx).split()
    if m:
        ctx.count("reads_and_writes_split", int(m[-1]))
    for w in case["ways"]:
        ctx.count("way_" + w)
    ctx.count("bytes_compared", len(o1))
    cls = lambda s: "whole" if s is None else "single" if s == "1" else "mixed"
    return "%s|%s|%s|%s|%s|%s" % (case["tool"], ",".join(case["ways"]), case["pre"], case["big"], cls(case["rmax"]), cls(case["wmax"]))
