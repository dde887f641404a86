"""C30: tooltest passes exactly the tests whose command did what the test file says."""
import re

from vf import Violation, s2b

ID = "C30"
QUICK, THOROUGH = 12000, 150000
CAP = 60
RULE = ("one case = 1-4 test files run by one `cdx tooltest`; each runs a shell script given as #infile that writes chosen stdout, stderr and files, copies stdin, and exits with a chosen "
        "status or dies of a signal; the expectations agree with it or differ in one aspect (a byte, a final newline, the status, a missing, extra or different file, a matcher, an "
        "unreadable test file or missing command); reported counts, exit status and the names of the failing tests are compared with the expected verdicts; distinct = (aspects in order, tmp mode)")
ASSUMPTIONS = ["expected contents are UTF-8 and have no line starting with '#'", "commands have no quoting, as the format provides none"]
ASPECTS = ["ok", "ok", "ok", "ok-matcher", "out-byte", "out-nl", "out-extra", "err-byte", "err-extra", "status", "signal", "file-missing", "file-byte", "file-nl", "file-extra",
           "dir-extra", "matcher", "nocmd", "garbage", "stdin", "out-binary", "gone"]


def word(rng, lo=1, hi=6):
    return "".join(rng.choice("abcXYZ019 _.,-\u00e9") for _ in range(rng.randint(lo, hi)))


def text(rng, nonempty=False):
    n = rng.choice([0, 1, 1, 2, 3]) if not nonempty else rng.randint(1, 3)
    if rng.random() < 0.01:
        n = rng.choice([300, 1500, 3000])
    ls = [word(rng) for _ in range(n)]
    s = "".join(x + "\n" for x in ls)
    if s and rng.random() < 0.3 and ls[-1]:
        s = s[:-1]
    return s


def change(rng, s):
    """a different text"""
    if not s or s == "\n":
        return s + "q\n"
    i = rng.choice([0, rng.randrange(len(s)), max(0, len(s) - 2)])
    if s[i] == "\n":
        return s + "q\n" if s.endswith("\n") else s + "q"
    return s[:i] + ("Q" if s[i] != "Q" else "R") + s[i + 1:]


def flipnl(s):
    return s[:-1] if s.endswith("\n") else s + "\n"


def block(tag, s, rng):
    """contents of a section"""
    if s == "":
        # nothing at all, or one empty line without its newline
        return tag + "\n" + ("\n#nonewline\n" if rng.random() < 0.5 else "")
    if s.endswith("\n"):
        return tag + "\n" + s
    return tag + "\n" + s + "\n#nonewline\n"


def octal(b):
    return "".join("\\%03o" % c for c in b)


def test(rng, k):
    a = rng.choice(ASPECTS)
    out, err, sin = text(rng, a in ("out-nl", "matcher", "ok-matcher")), text(rng), text(rng, a == "stdin")
    status = rng.choice([0, 0, 0, 1, 2, 77])
    nfile = rng.choice([0, 0, 1, 2])
    if a.startswith("file") and a != "file-extra":
        nfile = max(1, nfile)
    files = [["o%d_%d" % (k, i), text(rng, a == "file-nl")] for i in range(nfile)]
    usein = rng.random() < 0.5 or a == "stdin"
    x_out, x_err, x_status, x_files, x_sin = out, err, status, [list(f) for f in files], sin
    w_out, w_err = s2b(out.encode().decode("latin-1")), err.encode()
    extra = ""
    matcher = None
    good = a in ("ok", "ok-matcher")
    r_files = [list(f) for f in files]
    if a == "out-byte":
        x_out = change(rng, out)
    elif a == "out-nl":
        x_out = flipnl(out)
    elif a == "out-extra":
        x_out = out + ("" if out.endswith("\n") or not out else "\n") + "zz\n"
    elif a == "err-byte":
        x_err = change(rng, err)
    elif a == "err-extra":
        w_err += b"oops\n"
    elif a == "status":
        x_status = rng.choice([(status + 1) % 100, (status + 1) % 100, status + 256, status - 256])
    elif a == "file-missing":
        r_files = r_files[1:]
    elif a == "file-byte":
        x_files[-1][1] = change(rng, x_files[-1][1])
    elif a == "file-nl":
        x_files[-1][1] = flipnl(x_files[-1][1])
    elif a == "file-extra":
        extra = "printf x >\"$D/%sleft%d\"\n" % (rng.choice(["", "", "."]), k)
    elif a == "dir-extra":
        extra = "mkdir \"$D/dir%d\"\n" % k
    elif a == "out-binary":
        w_out = w_out + b"\xff\n"
        if rng.random() < 0.5:
            # what is not UTF-8 does not match, negated or not
            matcher = rng.choice(["not.utf8.prefix,qqq", "utf8.not.exact,qqq", "utf8.yes,", "utf8.not.infix,#"])
    elif a in ("matcher", "ok-matcher"):
        t = out.split("\n")[0]
        t = t.strip() or "zz"
        if not out.startswith(t):
            out = t + "\n"
            w_out = out.encode()
        matcher = rng.choice(["prefix,%s", "infix,%s", "not.prefix,q%s", "length,0,9999" if False else "prefix,%s"]) % t
        if a == "matcher":
            matcher = "not." + matcher if not matcher.startswith("not.") else "prefix,q" + t
    if usein:
        w_out = w_out + sin.encode()
        if a == "stdin":
            x_sin = change(rng, sin)
        if not matcher:
            if x_out == out:
                x_out = out + sin
            elif a in ("out-byte", "out-nl", "out-extra"):
                x_out = x_out + sin
                if x_out == out + sin:
                    x_out += "zz\n"
    # write only into the directory this script was put in
    script = "D=$1\n[ -n \"$D\" ] && [ -f \"$D/s%d\" ] || exit 99\n" % k
    more = rng.random() < 0.3
    if more:
        # every argument arrives as written, with the directory wherever it is named
        script += "[ $# -eq 5 ] && [ \"$2\" = \"${D}q%d\" ] && [ \"$3\" = \"a=$D,$D\" ] && [ \"$4\" = 'x\\y\"*' ] && [ \"$5\" = '-' ] || exit 97\n" % k
    second = text(rng) if rng.random() < 0.25 else None
    if second is not None:
        script += "printf '%s' | cmp -s - \"$D/i%d\" || exit 98\n" % (octal(second.encode()), k)
    script += "printf '%s'\n" % octal(w_out[:len(w_out) - (len(sin.encode()) if usein else 0)]) if w_out else ""
    if usein:
        script += "cat\n"
    if w_err:
        script += "printf '%s' >&2\n" % octal(w_err)
    for n, c in r_files:
        script += "printf '%s' >\"$D/%s\"\n" % (octal(c.encode()), n) if c else ": >\"$D/%s\"\n" % n
    script += extra
    if a == "gone":
        script += "rm -f \"$D/s%d\"\n" % k
    script += "kill -9 $$\n" if a == "signal" else "exit %d\n" % status
    secs = []
    secs.append("#infile s%d\n%s" % (k, script))
    if second is not None:
        secs.append(block("#infile i%d" % k, second, rng))
    cmd = "sh $TMPs%d $TMP" % k
    if more:
        cmd += " $TMPq%d a=$TMP,$TMP x\\y\"* -" % k
    if a == "nocmd":
        cmd = "no-such-program-%d x" % k
    body = []
    if x_sin or rng.random() < 0.2:
        body.append(block("#stdin", x_sin, rng))
    if matcher:
        body.append("#stdout %s\n" % matcher)
    elif x_out or rng.random() < 0.3:
        body.append(block("#stdout", x_out, rng))
    if x_err or rng.random() < 0.2:
        body.append(block("#stderr", x_err, rng))
    for n, c in x_files:
        body.append(block("#outfile " + n, c, rng))
    if x_status or rng.random() < 0.2:
        body.append("#status %d\n" % x_status)
    body.append("#command %s\n" % cmd)
    if rng.random() < 0.3:
        body.append("# a comment\n")
    body += secs
    rng.shuffle(body)
    t = "".join(body)
    if a == "garbage":
        t = rng.choice(["stray line\n" + t, t + "#bogus x\n", "#status xyz\n" + t])
    if a == "gone":
        good = None  # what happens when the command removes an input file is not specified
    return t.encode("utf8").decode("latin-1"), a, good


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 3, 4])
    files, tests = {}, []
    for k in range(n):
        t, a, g = test(rng, k)
        files["t%d.test" % k] = t
        tests.append(["t%d.test" % k, a, g])
    return {"files": files, "tests": tests, "tmp": rng.random() < 0.15, "v": rng.random() < 0.1}


def judge(ctx, case):
    tests = case["tests"]
    if case["tmp"]:
        # with a persistent directory nothing left over is a failure
        tests = [[n, a, True if a in ("file-extra", "dir-extra") else g] for n, a, g in tests]
    args = ["tooltest", "-b", "/usr/bin"] + (["-t", "keep"] if case["tmp"] else []) + (["-v"] if case["v"] else []) + [t[0] for t in tests]
    r = ctx.sane(ctx.run(args, env={"PATH": "/usr/bin:/bin"}))
    m = re.search(rb"([0-9]+) test run, ([0-9]+) pass, ([0-9]+) failed\n\Z", r.out)
    if not m:
        raise Violation("no report", run=r.brief())
    tot, ok, bad = map(int, m.groups())
    named = set(x.decode() for x in re.findall(rb"^Test (t[0-9]\.test) failed", r.err, re.M))
    free = set(n for n, a, g in tests if g is None)
    want = set(n for n, a, g in tests if g is False)
    ctx.expect("tests named as failing", sorted(named - free), sorted(want), r, aspects=[t[1] for t in tests])
    ctx.expect("counts", (tot, ok, bad), (len(tests), len(tests) - len(named), len(named)), r)
    ctx.expect("exit status", r.rc, 1 if named else 0, r)
    ctx.count("tests_judged", len(tests))
    ctx.count("tests_passing", ok)
    return "%s|%s" % (",".join(t[1] for t in tests), case["tmp"])
