"""C36: a specification that means nothing is refused, whatever else the command line holds."""
import re

import gen as G
from vf import Violation, s2b

ID = "C36"
QUICK, THOROUGH = 12000, 200000
CAP = 35
RULE = ("one case = a command line of any tool that works, and the same with one option whose value means nothing: a column that is not in the header (made up, or nearly a real one), an unknown "
        "method, modifier, aggregator, transform or mode, a malformed number, pattern or expression, missing or surplus parts; the first must succeed, the second must fail with a message, "
        "having written no data line; distinct = (tool, kind of nonsense, place, header)")
ASSUMPTIONS = ["columns given by a number beyond the width of the file count as empty", "columns are resolved only for files that are not empty",
               "a merge of a single file is a copy", "of several method words in one specification the last counts"]
# {P} further from the end than the first column, {R} a range that ends before it starts, {N} a name that is no column, {M} a word that names nothing, {B} not a number, {C} a real column
KEY = ["{N}", "{N},num", "{C},{M}", "{C},num.{M}", "0", "{C}-{N}", ",expr,{N}+1", ",expr,{X}", ",{M}", "{P}", "+0", "{P},num"]
MATCH = ["{N},exact,x", "{C},{M},x", "{C},exact.{M},x", "0,exact,x", "{C},regex,(", "{C},regex,[", "{C},length,{B}", "{C},length,1,{B}", "[some,{N}],exact,x",
         "[{M},{C}],exact,x", "[atleast,{B},{C}],exact,x", "[some,{C},exact,x", "{C},file-exact,no/such/file", ",expr,{N}>1", ",expr,{X}", "{C},range,{M}", "{P},exact,x", "+0,exact,x", "[some,{R}],exact,x", "[all,{C},{P}],exact,x"]
AGG = ["{M}", "min,{M}", "max,{M}", "expr,acc,0,{X}", "asum,{M}"]
COLS = ["{N}", "{C},{N}", "{N},{C}", "0", "{C}-{N}", "{N}-{C}", "{C}+{M}", "{C}+upper.{M}", "~{N}", "(regex,()", "+99", "{C}:", "{P}", "{C},{P}", "{P}-", "-{P}", "+0", "{R}", "{R}", "{C},{R}", "~{R}", "{C}-{C}-{C}", "{C},", ",{C}", "{C},,{C}", "n:{R}", "n:{N}"]
BAD = {
    "cut": [("fields", COLS), ("group", [".x:{N}", "x:{N}", ".x:{C},{N}", ".x:0", ".x:{R}", ".x:{P}", ".x:"]), ("composite", ["x:^{{N}}", "x:p^{{C}}q^{{N}}", "x:^{{C}", "x:^{{P}}", "x:^{+0}"]),
            ("expr", ["v:{N}+1", "v:{C}+{N}", "v:{X}", "v:{C}+", "v:c0", "v:{M}({C})"]), ("dups", ["{M}"])],
    "sort": [("key", KEY), ("Check", ["{B}"])],
    "uniq": [("key", KEY), ("count", ["n,{M}", "n,begin,{M}", "n,end,1"]), ("which", ["{M}", "min,{N}", "max,{C},{M}", "first,{N}", "last,{C},{M}"]),
             ("agg", ["{N},sum", "{C}"] + ["{C}," + x for x in AGG]), ("agg-post", ["new,{N},sum", "new"] + ["new,{C}," + x for x in AGG]),
             ("agg-pre", ["new,{N},sum", "new"] + ["new,{C}," + x for x in AGG])],
    "cgrep": [("pattern", MATCH), ("location", ["{M}", "a:{M}"])],
    "verify": [("pattern", MATCH), ("key", KEY), ("first", ["{M},1", "LT", "{M}"]), ("last", ["{M},1", "GT", "{M}"]), ("report", ["{B}"])],
    "join": [("key", KEY), ("output", ["3.1", "{M}", "1.{N}", "2.{N}", "1.{C},2.{N}", "0.1", "1.0", "1.{R}", "2.{P}", "1.{C},{R}", "2.+0"]), ("also", ["3,un", "{B},un", "0,un", "1"])],
    "wc": [("agg", ["x"] + ["x," + x for x in AGG]), ("with-header", ["{M}"]), ("total", ["{M}"]), ("format", ["{M}", "plain.{B}", "{M}.3"]), ("file", ["{M}", "{M},n"])],
    "paste": [("end", ["{M}"]), ("rename", ["{N}.x", "{M}", "{N}.x,{N}z.y"]), ("dups", ["{M}"])],
    "sample": [("for", ["0", "{B}", "1,{B}", "1,1,{B}", "1,0", "1,1,0", "1,2,3,4", ""]), ("range", ["{B}", "1-{B}", "{B}-2", "1,{B}", "1-2,{B}"]), ("sample", ["{B}"])],
    "transpose": [("lines", ["{B}"])],
    "binsearch": [("key", [x for x in KEY if "expr" not in x]), ("context", ["{B}", "1,{B}", "1,2,3"]), ("sub-delim", ["xx", ""]), ("filename", ["x:{M}"])],
    "cat": [("number", ["n,{B}", "n,1,{M}", "n,1,end,{M}"]), ("remove", ["{M},x", "regex,(", "length,{B}", "exact.{M},x"]), ("skip", ["{M},x", "regex,[", "exact.{M},x"]), ("pad", ["{M}"])],
    "calc": [("fmt", ["{M}", "plain.{B}", "{M}.2"])],
    "any": [("text-in", ["{M}", "q"]), ("text-out", ["{M}", "q"])],
}
GOOD = {
    "cut": ["--fields={C}", "--fields=1", "--expr=v:c1+1", "--dups=numeric"],
    "sort": ["--key={C}", "--key={C},num", "--key=1,rev", "--unique", "--alt-sort"],
    "uniq": ["--key={C}", "--key={C},num", "--count=n", "--which=last", "--agg={C},max,len"],
    "cgrep": ["--pattern={C},exact,x", "--pattern={C},prefix,1", "--or", "--invert"],
    "verify": ["--pattern={C},length,0,999", "--report=3", "--key=1"],
    "join": ["--key=1", "--output=1.1,2.1"],
    "wc": ["--lines", "--bytes", "--with-header=yes", "--total=no"],
    "paste": ["--dups=numeric"],
    "sample": [], "transpose": ["--head"], "binsearch": ["--context=1,1"], "cat": ["--pad=yes"], "calc": [],
}
NEED = {"cut": "--fields=1", "paste": "--dups=numeric", "join": "--key=1", "sample": None, "cgrep": None}


def fill(rng, s, names, hdr):
    c = rng.randrange(len(names))
    col = names[c] if hdr and rng.random() < 0.5 else str(c + 1)
    real = rng.choice(names)
    no = [rng.choice(["nosuch", "zork", "q_q"]), real + rng.choice("xz_0"), rng.choice("xz") + real, real[:-1] if len(real) > 1 else "zork"]
    n = rng.choice(no)
    while n in names or not n[0].isalpha() or n in ("e", "pi") or (n[0] == "c" and n[1:].isdigit()):
        n = "z" + n + "z"
    m = rng.choice(["nosuch", "zork", "qqq", "x1y2"])
    b = rng.choice(["x", "1x", "x1", "--", "1.5x", "one"])
    x = rng.choice(["1+", "(1", "1)", "nosuch(1)", "c1+*2", "(1)(2)", "sin()", "1,2", "@"])
    w = len(names)
    p = "+%d" % (w + rng.choice([1, 1, 2, 9]))
    lo = rng.randrange(w - 1) if w > 1 else 0
    hi = rng.choice([lo + 1, w - 1]) if w > 1 else 0
    form = lambda k: rng.choice([names[k] if hdr else str(k + 1), str(k + 1), "+%d" % (w - k)])
    r = form(hi) + "-" + form(lo) if w > 1 else "2-1"
    return re.sub(r"\{([NCMBXPR])\}", lambda g: {"N": n, "C": col, "M": m, "B": b, "X": x, "P": p, "R": r}[g.group(1)], s)


def gen(rng, idx, tier):
    tool = rng.choice([t for t in BAD if t != "any"])
    hdr = rng.random() < 0.75
    w = rng.randint(1, 4)
    names = []
    while len(names) < w:
        x = G.word(rng, 1, 5) if rng.random() < 0.7 else rng.choice(["alpha", "beta", "name", "value_1"])
        x = "".join(ch for ch in x if ch.isalnum() and ord(ch) < 128)
        if x and x[0].isalpha() and x not in names and x not in ("e", "pi") and not (x[0] == "c" and x[1:].isdigit()):
            names.append(x)
    nf = 2 if tool in ("join", "paste") else 1 if tool in ("uniq", "transpose") else rng.choice([1, 1, 2, 3])
    files = {}
    keys = sorted(rng.sample(range(10, 99), 6))
    for i in range(nf):
        if not i or tool != "paste":
            n = rng.choice([0, 1, 2, 5]) if hdr else rng.choice([1, 2, 5])
        files["f%d" % i] = "1+1\n2*3\n" if tool == "calc" else G.dump(names if hdr else None, [[str(keys[k])] + [G.cell(rng, "key") for _ in range(w - 1)] for k in range(n)])
    good = []
    if tool == "sample":
        good = []
    elif tool == "cut":
        good = [NEED["cut"]] + rng.sample(GOOD["cut"], rng.randint(0, 1))
        good = list(dict.fromkeys(good)) + ["--dups=numeric"]
        good = list(dict.fromkeys(good))
    elif tool == "cgrep":
        good = rng.sample(GOOD["cgrep"][:2], 1) + rng.sample(GOOD["cgrep"][2:], rng.randint(0, 1))
    else:
        good = rng.sample(GOOD[tool], rng.randint(0, min(2, len(GOOD[tool]))))
        if NEED.get(tool) and NEED[tool] not in good:
            good.append(NEED[tool])
    good = [fill(rng, x, names, hdr) for x in good]
    opt, specs = rng.choice(BAD[tool] if rng.random() < 0.95 else BAD["any"])
    if opt in ("dups", "fmt", "end", "pad", "sample", "for", "range", "Check", "which", "report", "with-header", "total"):
        good = [g for g in good if not g.startswith("--%s=" % opt)]
    tmpl = rng.choice(specs)
    val = fill(rng, tmpl, names, hdr)
    bad = list(good)
    bad.insert(rng.randint(0, len(bad)), "--%s=%s" % (opt, val))
    if tool == "sample":
        good = ["--for=1"]
    pos = (["12"] if tool == "binsearch" else []) + sorted(files)
    return {"files": files, "tool": tool, "good": [tool] + good + pos, "bad": [tool] + bad + pos, "opt": opt, "tmpl": tmpl, "header": hdr}


def judge(ctx, case):
    r0 = ctx.sane(ctx.run(case["good"]))
    r = ctx.bad(case["bad"])
    ls = G.lines(r.out)
    if len(ls) > 1 or ls and not ls[0].startswith(b" CDX"):
        raise Violation("data was written under a specification that means nothing", run=r.brief())
    ctx.count("refused")
    ctx.count("accepted_without_it", int(r0.rc == 0))
    return "%s|%s|%s|%s" % (case["tool"], case["opt"], case["tmpl"], case["header"]) if r0.rc == 0 else None
