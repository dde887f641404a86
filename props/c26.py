"""C26: no command line and no input makes any tool crash, hang, or fail without saying why."""
import gzip
import importlib
import re

from vf import Violation, b2s, s2b

ID = "C26"
QUICK, THOROUGH = 30000, 600000
CAP = 60
CAP_T = 3000
RULE = ("one case = a command line of some tool taken from the generators of the other properties, then damaged: characters of option values deleted, doubled, inserted or replaced "
        "(delimiters, brackets, multi-byte characters, extreme numbers), values exchanged between options and tools, options dropped or added, text formats added; and its files damaged: "
        "arbitrary bytes, missing final newline, bad or repeated column names, huge lines, many columns, truncated gzip, directories, missing files; or a help option; the run must end by itself "
        "within limits, with status 0, 1 or 2, never by panic or signal, and say something on stderr when it fails; distinct = (tool, kinds of damage, outcome class and message shape)")
ASSUMPTIONS = ["command-line arguments are valid UTF-8 (Rust std::env::args refuses others)", "debug build: arithmetic overflow counts as a crash"]
SRC = ["c02", "c04", "c06", "c20", "c23", "c25", "c28", "c01", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c16", "c17", "c18", "c19", "c22", "c27", "c29"]
TOOLS = ["binsearch", "calc", "cat", "cut", "cgrep", "filegen", "join", "paste", "sample", "sort", "tabs", "tooltest", "transpose", "uniq", "verify", "wc"]
HELPS = ["--help", "--version", "--std-agg", "--std-comp", "--std-const", "--std-func", "--std-gen", "--std-match", "--std-text", "--std-trans", "--show-const", "--show-func", "--show-matchers",
         "--agg-help", "--file-format", "--std-help", "-h", "-V", "--show-match", "--show-text", "--foo"]
SPECIALS = list(",.:;+-~()[]{}<>=!*?#$%^&|\\\"' \t_@0123456789abcxyzLTNRED") + ["\u00e9", "\u6f22", "\u0130", "\u00df", ",,", "..", "~~", "--", "+0", "1-", "-1", "\n"]
NUMS = ["0", "1", "-1", "99", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e400", "0.0", "-0", "1e-400",
        "NaN", "inf", "00", "1k", "7x", "340282366920938463463374607431768211456"]
WORDS = ["plain", "num", "float", "ip", "lower", "len", "expr", "rev", "exact", "glob", "regex", "range", "length", "merge", "count", "sum", "mean", "min", "max", "utf8", "case", "not", "trim",
         "null", "file-exact", "nosuchfile", "low", "upper", "select", "bytes", "chars", "split", "c1", "c9", "all", "some", "atleast", "first", "last", "begin", "end", "yes", "no", "maybe", "only"]
TEXTS = ["mtp", "ntp_", "ytqs", "xtb*", "s,qx", "mtps", "", "z", "mttt", "m", "mt", "n\u00e9p", "ntq", "ntb"]


def mut(rng, s, pool):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        n = len(s)
        i = rng.randint(0, n)
        if r < 0.2 and n:
            i = rng.randrange(n)
            s = s[:i] + s[i + 1:]
        elif r < 0.45:
            s = s[:i] + rng.choice(SPECIALS) + s[i:]
        elif r < 0.55 and n:
            i = rng.randrange(n)
            s = s[:i] + rng.choice(SPECIALS) + s[i + 1:]
        elif r < 0.63:
            s = s[:i]
        elif r < 0.68:
            s = s[i:]
        elif r < 0.78:
            t = rng.choice(pool)
            j = rng.randint(0, len(t))
            s = s[:i] + t[j:]
        elif r < 0.9:
            m = list(re.finditer("[0-9]+", s))
            if m:
                x = rng.choice(m)
                s = s[:x.start()] + rng.choice(NUMS) + s[x.end():]
            else:
                s = s + rng.choice(NUMS)
        else:
            m = list(re.finditer("[a-zA-Z]+", s))
            if m:
                x = rng.choice(m)
                s = s[:x.start()] + rng.choice(WORDS) + s[x.end():]
            else:
                s = rng.choice(WORDS) + s
    return s


def damage(rng, d):
    r = rng.random()
    if r < 0.12:
        return "", "empty"
    if r < 0.24:
        return "".join(chr(rng.choice([9, 10, 32, 34, 92, 0, 255, 195, 169, 13, 97, 48, 45, 46, 44])) for _ in range(rng.choice([1, 5, 40, 300]))), "bytes"
    if r < 0.32:
        return d[:rng.randint(0, len(d))], "cut"
    if r < 0.40:
        names = [rng.choice(["", "a", "a", "b", "0", "1x", "a b", "-", "~", "\u00c3", "x" * 300, "c1", " CDX"]) for _ in range(rng.randint(0, 5))]
        return " CDX" + "".join("\t" + n for n in names) + rng.choice(["\n", ""]) + d, "names"
    if r < 0.48:
        return d + "z" * rng.choice([70000, 300000]) + rng.choice(["", "\n"]), "long"
    if r < 0.54:
        return "\t".join("v%d" % i for i in range(rng.choice([100, 600]))) + "\n" + d, "wide"
    if r < 0.6:
        return " CDX" + rng.choice(["\n", "", " ", "\t", "\t\t", "x", "\ta\t"]), "stub"
    if r < 0.68:
        g = gzip.compress(s2b(d), mtime=0)
        return b2s(g[:rng.choice([len(g), len(g) - 1, len(g) // 2, 10, 3, 2])]), "gzip"
    if r < 0.8 and d:
        i = rng.randrange(len(d))
        return d[:i] + rng.choice(["\t", "\n", "\x00", "\xff", "\"", "\\", "\r", "-", "9" * 40, "1e999", "\t\t\t"]) + d[i + rng.randint(0, 2):], "poke"
    if r < 0.9:
        return "\n" * rng.randint(1, 5) + d, "blank"
    return d.replace("\t", rng.choice([" ", ",", "\t\t", ""])), "delim"


def base(rng, idx, tier):
    for _ in range(20):
        m = importlib.import_module(rng.choice(SRC))
        c = m.gen(rng, idx, tier)
        if sum(map(len, c["files"].values())) > 200000:
            continue
        files = dict(c["files"])
        if m.ID == "C04":
            c["args"] = ["sort", "-m"] + rng.choice([[], ["-A"], ["-u"], ["-A", "-u"]]) + c["kargs"] + sorted(files)[:rng.choice([1, 2, 9])]
        elif m.ID == "C06":
            c["args"] = ["sort", "-c"] + rng.choice([[], ["-u"]]) + c["kargs"] + ["f"]
        elif m.ID == "C28":
            c["args"] = ["tabs"]
        elif m.ID == "C23":
            c["args"] = c["args"] + c["args2"]
        elif m.ID == "C20":
            c["args"] = c["args"] + ["f0"] if "args" in c else ["cut", "-e", "v:" + "".join(c["t"]), "f0"]
        elif m.ID == "C25":
            if "args" not in c:
                continue
            c["args"] = c["args"] + (c.get("n1") or c.get("n") or [])
        a = list(c["args"])
        order = [x for x in c.get("order") or [] if x not in a]
        if m.ID == "C19":
            a = a + [",".join(c["pat"])] if isinstance(c["pat"], list) else a
        if m.ID == "C22":
            order = [f for f in sorted(files) if f not in a]
        return a + order, files, c.get("stdin") or ""
    return ["cat"], {}, ""


def gen(rng, idx, tier):
    if rng.random() < 0.02:
        t = rng.choice(TOOLS)
        return {"files": {}, "args": [t, rng.choice(HELPS)], "stdin": "", "kinds": ["help"], "dirs": []}
    if rng.random() < 0.04:
        m = importlib.import_module("c20")
        toks = "+-*/^%()!<>=&|,~0123456789.abcxyz" + "e"
        e = "".join(rng.choice(["sin(", "max(", "pi", "c1", "1.5", "2", "(", ")", "if(", "avg(", "plain,", "float.3,", "[1]", "[", "]", ",", "e", "1e308", "!"] + list(toks)) for _ in range(rng.randint(0, 12)))
        if rng.random() < 0.5:
            return {"files": {"f": "1\t2\n3\t4\n"}, "args": ["cut", "-e", "v:" + e, "f"], "stdin": "", "kinds": ["expr"], "dirs": []}
        return {"files": {}, "args": ["calc"], "stdin": e + "\n", "kinds": ["calc"], "dirs": []}
    args, files, stdin = base(rng, idx, tier)
    kinds = []
    pool = [x for x in args[1:] if x not in files] or ["1"]
    if rng.random() < 0.3:
        pool += [x for x in base(rng, idx + 1, tier)[0][1:]]
    if rng.random() < 0.85:
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = [i for i in range(1, len(args)) if args[i] not in files and not re.match("--?[a-zA-Z-]+$", args[i])]
            r = rng.random()
            if k and r < 0.8:
                i = rng.choice(k)
                pre, v = "", args[i]
                x = re.match("(--[a-z-]+=|-[a-zA-Z])", v)
                if x:
                    pre, v = x.group(0), v[x.end():]
                args[i] = pre + mut(rng, v, pool)
                kinds.append("value")
            elif r < 0.88 and len(args) > 2:
                del args[rng.randrange(1, len(args))]
                kinds.append("drop")
            elif r < 0.94:
                args[1:1] = [rng.choice(["--text-in=", "--text-out="]) + (rng.choice(TEXTS) if rng.random() < 0.6 else mut(rng, rng.choice(TEXTS), pool))]
                kinds.append("text")
            else:
                args.insert(rng.randint(1, len(args)), rng.choice(pool))
                kinds.append("dup")
    dirs = []
    if files and rng.random() < 0.4:
        f = rng.choice(sorted(files))
        r = rng.random()
        if r < 0.05:
            del files[f]
            kinds.append("missing")
        elif r < 0.1:
            del files[f]
            dirs.append(f)
            kinds.append("dir")
        else:
            files[f], k = damage(rng, files[f])
            kinds.append(k)
    if stdin and rng.random() < 0.3:
        stdin, k = damage(rng, stdin)
        kinds.append(k)
    # stay inside the scratch directory, and ask for no astronomic amount of output
    args = [a.replace("/", "").replace("\x00", "") for a in args]
    # ranges ending in 5 or more digits, or a suffix, name that many columns
    args = [re.sub("-([0-9]{1,3})[0-9a-zA-Z.]*", r"-\1", a) if not a.startswith("-") else re.sub("([^-])-([0-9]{1,3})[0-9a-zA-Z.]*", r"\1-\2", a) for a in args]
    if args[0] == "filegen":
        args = [re.sub("[0-9]{4,}", "123", a) if not a.startswith("count,") else a for a in args]
        args = [re.sub("([0-9])[a-zA-Z]+", r"\1", re.sub("[eE][+]?[0-9]+", "", a)) for a in args]
    return {"files": files, "args": args, "stdin": stdin, "kinds": kinds, "dirs": dirs,
            "env": {"TMPDIR": "/nonexistent"} if rng.random() < 0.03 else None}


def _f(args, files=None, stdin="", env=None):
    return {"files": files or {}, "args": args, "stdin": stdin, "kinds": ["fixed"], "dirs": [], "env": env}


T = {"f": "1\t2\n3\t4\n"}
# command lines that once crashed or hung
FIXED = [
    _f(["sample", "--sample=18446744073709551615", "f"], T),
    _f(["sample", "--sample=9223372036854775808", "f"], T),
    _f(["sample", "--for=18446744073709551615,1,18446744073709551615", "f"], T),
    _f(["uniq", "-k", "1", "-a", "2,count", "f"], {"f": " CDX\ta\ta\n1\t2\n"}),
    _f(["wc", "--format=plain.9223372036854775808", "f"], T),
    _f(["cat", "--text-in=n\u00e9p", "f"], T),
    _f(["binsearch", "1", "f"], {"f": " CDX"}),
    _f(["binsearch", "-C", "5.9z", "1", "f"], T),
    _f(["cat", "--number=idx,9223372036854775807,end", "f"], T),
    _f(["sort", "-k", "1", "f"], T, env={"TMPDIR": "/nonexistent"}),
    _f(["verify", "--report=2", "f"], T),
    _f(["uniq", "--agg-help"]),
    _f(["verify", "--show-matchers"]),
]


def judge(ctx, case):
    import os
    for d in case["dirs"]:
        os.mkdir(os.path.join(ctx.dir, d))
    r = ctx.sane(ctx.run(case["args"], case["stdin"], env=case.get("env")))
    if r.rc not in (0, 1, 2):
        raise Violation("exit status %s" % r.rc, run=r.brief())
    if r.rc and not r.err:
        raise Violation("failed without any message", run=r.brief())
    if b"memory allocation" in r.err or b"stack overflow" in r.err:
        raise Violation("ran out of memory", run=r.brief())
    ctx.count("accepted" if r.rc == 0 else "refused")
    shape = "ok"
    if r.rc:
        m = r.err.split(b"\n")[0]
        shape = re.sub(rb"'.*'|[0-9]+|:.*", b"", m)[:60].decode("latin-1")
    return "%s|%s|%s|%s" % (case["args"][0], ",".join(sorted(set(case["kinds"]))), r.rc, shape)
