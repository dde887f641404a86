"""C33: the header policies of the library accept, drop and refuse exactly what they say."""
import gen as G
from vf import HARNESS as EXE, Violation, s2b

ID = "C33"
HARNESS = "reader"
QUICK, THOROUGH = 30000, 400000
RULE = ("one case = a policy (match, require, strip, none, trust, ignore) and 1-5 files with equal, different, missing, malformed or truncated "
        "headers, shown one after the other to one header checker, as bytes or through a Reader; each answer (write the line, drop it, refuse "
        "the file) is compared with the policy's definition; distinct = (policy, route, kinds of files, answers)")
ASSUMPTIONS = ["files shown through a Reader have well-formed headers of the tab-delimited kind"]
MODES = ["match", "require", "strip", "none", "trust", "ignore"]
BAD = [" CDX", " CDX\n", " CDX\t", " CDX\t\n", " CDXone\ttwo\n", " CDX\t1a\n", " CDX\ta\t\tb\n", " CDX\ta b\n", " CDX\ta-b\tc\n", " CDX9a\n", " CDX\ta\t\n",
       " CDX\t_a\n", " CDX\t\xe9\n", " CDX\xc3a\n", " CDX\ta.b\n"]
ODD = [" CDX,one,two\n", " CDX|a|b\n", " CDX a b\n", " CDX\t\xc3\xa9t\xc3\xa9\tx1\n", " CDX\tA_1\n", " CDX:a\n"]


def gen(rng, idx, tier):
    reader = rng.random() < 0.35
    base = G.names(rng, G.width(rng, 1, 5))
    mode = rng.choice(MODES[:5] if reader else MODES)
    files, order, kinds = {}, [], []
    for i in range(rng.choice([1, 2, 2, 3, 3, 4, 5])):
        r = rng.random()
        if r < 0.5:
            k, t = "same", G.dump(base, G.table(rng, len(base), rng.choice([0, 1, 3])))
        elif r < 0.62:
            o = list(base)
            q = rng.random()
            if q < 0.3 and len(o) > 1:
                a, b = rng.sample(range(len(o)), 2)
                o[a], o[b] = o[b], o[a]
            elif q < 0.6:
                o.append("extra")
            else:
                j = rng.randrange(len(o))
                o[j] = rng.choice([o[j] + "x", o[j].swapcase()])
            k, t = "other", G.dump(o, G.table(rng, len(o), 1))
        elif r < 0.85:
            k, t = "plain", rng.choice(["a\tb\n", "one\n", "\n", "x", "CDX\ta\n", " cdx\ta\n", " CD\tX\n", "  CDX\ta\n", "fake\n", "fake", "\t".join(base) + "\n"])
        elif reader:
            k, t = "empty", ""
        elif r < 0.88:
            k, t = "empty", ""
        elif r < 0.91:
            k, t = "cut", " CDX\t" + "\t".join(base)
        elif r < 0.95:
            k, t = "odd", rng.choice(ODD)
        else:
            k, t = "bad", rng.choice(BAD)
        files["f%d" % i] = t
        order.append("f%d" % i)
        kinds.append(k)
    return {"files": files, "args": ["headerf" if reader else "header", mode], "order": order, "kinds": kinds}


def valid(line):
    """is this CDX line a proper header"""
    line = line[:-1] if line.endswith(b"\n") else line
    if len(line) < 6:
        return False
    d = line[4:5]
    if d.isalnum() or d[0] > 127:
        return False
    try:
        t = line[5:].decode("utf8")
    except UnicodeDecodeError:
        return False
    return all(x and x[0].isalpha() and all(c.isalnum() or c == "_" for c in x) for x in t.split(d.decode()))


def judge(ctx, case):
    mode, reader = case["args"][1], case["args"][0] == "headerf"
    want, head = [], None
    for i, f in enumerate(case["order"]):
        data = s2b(case["files"][f])
        line = data.split(b"\n")[0] + (b"\n" if b"\n" in data else b"")
        cdx = line.startswith(b" CDX") and mode != "ignore"
        if cdx and (not line.endswith(b"\n") or (mode not in ("strip", "none") and not valid(line))):
            a = "refused"
        elif cdx and mode == "none":
            a = "refused"
        elif not cdx and mode == "require":
            a = "refused"
        elif i and mode in ("match", "require") and head != (line if cdx else b""):
            a = "refused"
        elif cdx:
            a = "true" if i == 0 and mode != "strip" else "false"
        else:
            a = "true" if line and not reader else "false"
        if i == 0:
            head = line if cdx else b""
        want.append(a)
        if a == "refused":
            break
    r = ctx.run(case["args"] + case["order"], exe=EXE)
    ctx.sane(r)
    got = r.out.decode().split("\n")[:-1]
    if got != want:
        raise Violation("header policy %s answered %s, should be %s" % (mode, got, want), run=r.brief(), files=case["files"])
    if (want[-1] == "refused") != (r.rc == 1):
        raise Violation("refusal and status disagree", run=r.brief())
    ctx.count("headers_judged", len(want))
    ctx.count("files_refused", want[-1] == "refused")
    return "%s|%s|%s|%s" % (mode, reader, case["kinds"][:len(want)], want[-1])
