"""C37: the library's text functions mean the same for strings and bytes, and what they say."""
import re
import struct
from vf import HARNESS as EXE, Violation

ID = "C37"
HARNESS = "text"
QUICK, THOROUGH = 20000, 300000
RULE = ("one case = 30 pairs of texts (ASCII, UTF-8 with characters whose case changes their length, bytes that are no UTF-8; numbers of all shapes, nearly numbers, "
        "globs made from the other text, paths) with a count and a delimiter; every function of the Text trait is asked about them, as bytes and as str, and every answer compared with its definition; "
        "distinct = answers seen")
ASSUMPTIONS = ["characters are folded one by one with their full lower case mapping", "numbers that do not fit saturate"]
BATCH = 30
U = ["ñ", "Ñ", "é", "ß", "K", "k", "K", "İ", "i", "ı", "ſ", "s", "Ω", "ω", "Å", "å", "日", "本", "😀", "Σ", "σ", "ς", "Ǆ", "ǆ", "ﬁ", "\u00a0", "\u2003", "\u3000", "\u0085", "\u200b", "́"]
WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
P2 = {c: 1024 ** (i + 1) for i, c in enumerate("KMGTPEZY")}
P10 = {c: 1000 ** (i + 1) for i, c in enumerate("kmgtpezy")}
SUF = dict(P2, **P10)


def word(rng):
    k = rng.random()
    if k < 0.45:
        a = "abAB" if rng.random() < 0.6 else "abcxyzABCXYZ019._-/[]\\"
        return "".join(rng.choice(a) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 12])))
    if k < 0.8:
        return "".join(rng.choice(U) if rng.random() < 0.5 else rng.choice("abkKsS i") for _ in range(rng.choice([1, 1, 2, 3, 5])))
    if k < 0.9:
        return rng.choice(WS + "\x01\x1f\x1c ") + word(rng) + rng.choice(WS + "\x00\x1d ")
    return "/".join(word(rng).replace("/", "") for _ in range(rng.randint(1, 4)))


def number(rng):
    k = rng.random()
    if k < 0.3:
        s = str(rng.choice([0, 1, 9, 10, 255, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 19, 10 ** 25, rng.getrandbits(64)]))
    elif k < 0.5:
        s = str(rng.randint(0, 10 ** rng.randint(1, 22)))
    else:
        s = rng.choice(["", "0", "1", "12", "007", "123456789012345678901234567890", str(rng.getrandbits(40))])
        s += rng.choice(["", ".", "." + str(rng.getrandbits(rng.randint(1, 60))), ".0", ".5"])
        s += rng.choice(["", "", "e", "e5", "E-7", "e+", "e+3", "E", "e-", "e308", "e-330", "e400", "ee1"])
    s = rng.choice(["", "", "", "+", "-", "--", "+-", " "]) + s
    return s + rng.choice(["", "", "", rng.choice("KMGTPEZYkmgtpezy"), rng.choice("KMkm") + rng.choice("kx1"), "x", ".", " ", "B", "\n", "é"])


def globbed(rng, s):
    out = []
    for c in s:
        k = rng.random()
        out.append("?" if k < 0.2 else "*" if k < 0.35 else c.swapcase() if k < 0.45 else "" if k < 0.5 else c)
        if rng.random() < 0.1:
            out.append("*")
    return "".join(out)


KNOWN = {y for c in U + list(WS) + [chr(i) for i in range(256)] for y in c + c.lower() + c.upper() + c.swapcase()}


def strange(s):
    """is it UTF-8 with characters whose case may differ between versions of Unicode"""
    try:
        return any(c not in KNOWN for c in s.decode())
    except UnicodeDecodeError:
        return False


def gen(rng, idx, tier):
    cs = []
    for _ in range(BATCH):
        k = rng.random()
        a = number(rng) if rng.random() < 0.35 else word(rng)
        if k < 0.25:
            b = globbed(rng, a)
        elif k < 0.4:
            b = a.swapcase() if rng.random() < 0.5 else a.upper()
        elif k < 0.6:
            b = a[:rng.randint(0, len(a))] + word(rng)
        else:
            b = word(rng)
        if rng.random() < 0.05:
            a = a * rng.choice([2, 5, 40])
        a, b = a.encode(), b.encode()
        if rng.random() < 0.2:
            i = rng.randint(0, len(a))
            x = bytes([rng.randrange(256) for _ in range(rng.randint(1, 3))])
            a = a[:i] + x + a[i:]
            if rng.random() < 0.5:
                b = b[:i] + x + b[i:]
            if strange(a) or strange(b):
                a += b"\xff"
        d = rng.choice([47, 47, 46, 97, 65, 0]) if rng.random() < 0.8 else (a[rng.randrange(len(a))] & 127 if a else 47)
        cs.append([a.hex(), b.hex(), rng.choice([0, 1, 1, 2, 2, 3, 7, 10 ** 6]), d])
    return {"files": {}, "cases": cs}


def glob(s, p, eq):
    """does p match all of s"""
    row = [True] + [False] * len(s)
    for c in p:
        if c in ("*", 42):
            new, any_ = [], False
            for x in row:
                any_ = any_ or x
                new.append(any_)
        else:
            new = [False] + [row[i] and (c in ("?", 63) or eq(c, s[i])) for i in range(len(s))]
        row = new
    return row[-1]


def num(s, signed, hi):
    m = re.match(rb"[+-]?[0-9]+" if signed else rb"\+?[0-9]+", s)
    if not m:
        return 0, len(s)
    v, e = min(abs(int(m.group())), hi), m.end()
    if e < len(s) and chr(s[e]) in SUF:
        v, e = min(v * SUF[chr(s[e])], hi), e + 1
    return (-v if s[:1] == b"-" else v), len(s) - e


def flt(s):
    m = re.match(rb"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?", s)
    if not m:
        return 0.0, len(s)
    v, e = float(m.group()), m.end()
    if e < len(s) and chr(s[e]) in SUF:
        v, e = v * float(SUF[chr(s[e])]), e + 1
    return v, len(s) - e


def bits(f):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]


def lowb(x):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in x)


def upb(x):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in x)


def model(a, b, n, d, isstr):
    """name -> answer"""
    raw, rawb = a, b
    if isstr:
        a, b = a.decode(), b.decode()
        low = lambda x: "".join(c.lower() for c in x)
        up = lambda x: "".join(c.upper() for c in x)
        hx = lambda x: x.encode().hex()
        dd = chr(d)
        key = lambda x: [ord(c) for c in x]
        trim, trims = a.strip(WS), a.lstrip(WS)
        one = lambda p, q: p == q
        two = lambda p, q: p == q or p.lower() == q.lower()
    else:
        low, up, hx, dd, key = lowb, upb, lambda x: x.hex(), bytes([d]), list
        blank = bytes(range(33))
        trim, trims = a.strip(blank), a.lstrip(blank)
        one = lambda p, q: p == q
        two = lambda p, q: lowb(bytes([p])) == lowb(bytes([q]))
    sens = lambda p, q: one(p, q)
    t = lambda x: "1" if x else "0"
    la, lb = low(a), low(b)
    c = "<=>"[(key(la) > key(lb)) - (key(la) < key(lb)) + 1]
    parts = a.split(dd)
    empty = a[:0]
    tail = lambda k: dd.join(parts[-k:]) if k else empty
    head = lambda k: dd.join(parts[:k])
    o = [("glob", t(glob(a, b, sens))), ("glob.case", t(glob(a, b, two))), ("equal_insens", t(la == lb)), ("equal_insens_quick", t(la == lb)),
         ("cmp_insens", c), ("cmp_insens_quick", c), ("new_lower", hx(la)), ("assign_lower", hx(la)), ("new_upper", hx(up(a))), ("assign_upper", hx(up(a))),
         ("trimw", hx(trim)), ("trimw_start", hx(trims)), ("num_chars", str(len(a))), ("tail_u8", hx(tail(n))),
         ("tail_path_u8", hx(tail(n + (raw[-1:] == bytes([d]))) if raw else empty)), ("head", hx(head(n))),
         ("head_path", hx(head(n + (raw[:1] == bytes([d]))) if raw else empty))]
    us, ur = num(raw, False, 2 ** 64 - 1)
    s, sr = num(raw, True, 2 ** 63 - 1)
    f, fr = flt(raw)
    o += [("to_usize", "%d,%d" % (us, ur)), ("to_isize", "%d,%d" % (s, sr)), ("to_f64", "%s,%d" % (bits(f), fr)),
          ("to_usize_whole", "bad" if ur else str(us)), ("to_isize_whole", "bad" if sr else str(s)), ("to_f64_whole", "bad" if fr else bits(f))]
    big = [(0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1), (-1.7976931348623157e308, 1.7976931348623157e308)]
    for jt in range(3):
        for jv in range(2):
            for i, (v, r) in enumerate([(us, ur), (s, sr), (f, fr)]):
                junk = jt == 1 and r == len(raw) or jt == 2 and (r or not raw)
                x = big[i][jv] if junk else v
                o.append(("junk%d%d%d" % (jt, jv, i), bits(x) if i == 2 else str(x)))
    return o


def judge(ctx, case):
    cs = case["cases"]
    r = ctx.good(["text"], stdin="".join("%s %s %d %d\n" % tuple(c) for c in cs).encode(), exe=EXE)
    lines = r.out.decode().split("\n")
    at, seen = 0, set()
    for x, y, n, d in cs:
        a, b = bytes.fromhex(x), bytes.fromhex(y)
        kinds = ["b"]
        try:
            a.decode(), b.decode()
            kinds.append("s")
        except UnicodeDecodeError:
            pass
        for k in kinds:
            p = lines[at].split(" ")
            at += 1
            if p[0] != k:
                raise Violation("unexpected trace", line=lines[at - 1])
            want = model(a, b, n, d, k == "s")
            if len(p) != len(want) + 1:
                raise Violation("a wrong number of answers", line=lines[at - 1])
            for (name, w), g in zip(want, p[1:]):
                if g != w:
                    raise Violation("Text::%s for %s is not as defined" % (name, "str" if k == "s" else "bytes"), a=repr(a), b=repr(b), n=n, delim=d, got=g, want=w)
            ctx.count("answers", len(want))
            seen.add("".join(p[1:7]) + ",".join(g if len(g) < 12 else str(len(g)) for g in p[18:21]))
    return sorted(seen)[idx_of(case) % len(seen)]


def idx_of(case):
    return sum(int(c[0][:2] or "0", 16) for c in case["cases"])
