"""Independent reference models of cdx's documented semantics (python)."""
import functools
import re
from decimal import Decimal


def enc(s):
    return s.encode("latin-1") if isinstance(s, str) else s


def cols(line, delim=b"\t"):
    return line.split(delim)


def col(line, n, delim=b"\t"):
    v = line.split(delim)
    return v[n] if n < len(v) else b""


def nozero(x):
    """x (str) without minus signs that stand before something of no numeric value"""
    ws = "".join(map(chr, range(33)))
    while x.lstrip(ws)[:1] == "-" and numval(x.encode("latin-1")) == 0:
        x = x.lstrip(ws)[1:]
    return x


def numval(b):
    """value of a plain decimal NNN.nnn, possibly with commas, junk after it ignored"""
    s = b.lstrip(bytes(range(33)))
    neg = False
    if s[:1] == b"-":
        neg = True
        s = s[1:]
    i = 0
    ip = b""
    while i < len(s) and (48 <= s[i] <= 57 or s[i] == 44):
        if s[i] != 44:
            ip += s[i:i + 1]
        i += 1
    fp = b""
    if i < len(s) and s[i] == 46:
        i += 1
        while i < len(s) and 48 <= s[i] <= 57:
            fp += s[i:i + 1]
            i += 1
    d = Decimal((ip or b"0").decode() + "." + (fp or b"0").decode())
    return d.copy_negate() if neg else d


def floatval(b):
    """the nearest double to the number at the start of b, times its suffix; no number is zero"""
    return f64(b) + 0.0


def lower(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def ipkey(b):
    s = b.lstrip(bytes(range(33)))
    segs = []
    while True:
        i = 0
        while i < len(s) and 48 <= s[i] <= 57:
            i += 1
        segs.append((i, s[:i]))
        if i < len(s) and s[i] == 46:
            s = s[i + 1:]
        else:
            return segs


def method_key(method, v):
    if method in ("", "plain"):
        return v
    if method == "lower":
        return lower(v)
    if method in ("len", "length"):
        return len(v)
    if method in ("num", "numeric"):
        return numval(v)
    if method == "float":
        return floatval(v)
    if method == "ip":
        return ipkey(v)
    if method == "equal":
        return 0
    raise ValueError(method)


class Key:
    """one comparison key: column index (or None for the whole line), method, reversed"""

    def __init__(self, c, method="", rev=False, delim=b"\t"):
        self.c, self.method, self.rev, self.delim = c, method, rev, delim

    def value(self, line):
        # whole-line comparison sees the terminating newline
        v = line + b"\n" if self.c is None else col(line, self.c, self.delim)
        return method_key(self.method, v)


def compare(keys, a, b):
    for k in keys:
        x, y = k.value(a), k.value(b)
        if x != y:
            r = -1 if x < y else 1
            return -r if k.rev else r
    return 0


class Ord:
    """total preorder over lines with key values computed once"""

    def __init__(self, keys, line):
        self.line = line
        self.v = [k.value(line) for k in keys]
        self.keys = keys

    def cmp(self, o):
        for k, x, y in zip(self.keys, self.v, o.v):
            if x != y:
                r = -1 if x < y else 1
                return -r if k.rev else r
        return 0


def sort_lines(keys, ls):
    v = [Ord(keys, x) for x in ls]
    v.sort(key=functools.cmp_to_key(lambda a, b: a.cmp(b)))
    return [x.line for x in v]


def uniq_sorted(keys, ls):
    out = []
    for x in ls:
        o = Ord(keys, x)
        if not out or out[-1].cmp(o) != 0:
            out.append(o)
    return [x.line for x in out]


def groups(keys, ls):
    """maximal runs of adjacent equal lines"""
    out = []
    last = None
    for x in ls:
        o = Ord(keys, x)
        if last is not None and last.cmp(o) == 0:
            out[-1].append(x)
        else:
            out.append([x])
            last = o
    return out


# ---------------------------------------------------------------- numbers
def _digits(x):
    """shortest round-trip digits and exponent of a finite float: (sign, digits, exp10 of first digit)"""
    t = Decimal(repr(x)).as_tuple()
    d = "".join(map(str, t.digits)).lstrip("0")
    if not d:
        return t.sign, "0", 0
    e = len(d) - 1 + t.exponent
    return t.sign, d.rstrip("0"), e


def fmt_plain(x, prec=None):
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if prec is not None:
        return "%.*f" % (prec, x)
    s = format(Decimal(repr(x)), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s


def fmt_float(x, prec=None):
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    if prec is not None:
        m, e = ("%.*e" % (prec, x)).split("e")
        return "%se%d" % (m, int(e))
    sg, d, e = _digits(x)
    return ("-" if sg else "") + d[0] + ("." + d[1:] if len(d) > 1 else "") + "e%d" % e


def ties(got, want):
    """want, with each number replaced by got's when both are equally short and equally close to the same double"""
    if got == want or len(got) != len(want):
        return want
    import re
    pat = re.compile(rb"-?[0-9]+(?:[.][0-9]+)?(?:e-?[0-9]+)?")
    out, pos = [], 0
    for m in pat.finditer(want):
        a, b = m.group(0), got[m.start():m.end()]
        if a != b and len(a) > 16 and pat.fullmatch(b) and float(a) == float(b):
            out += [want[pos:m.start()], b]
            pos = m.end()
    return b"".join(out) + want[pos:]


def fmt_short(x, prec=None):
    if 0.0001 <= abs(x) < 1000.0:
        return fmt_plain(x, prec)
    return fmt_float(x, prec)


def f64(b):
    """documented lossy numeric value of a column: sign digits . digits exponent, one suffix letter"""
    import re
    m = re.match(rb"[+-]?[0-9]*(\.[0-9]*)?([eE][+-]?[0-9]+)?", b)
    t = m.group(0)
    try:
        v = float(t)
    except ValueError:
        v = 0.0
    rest = b[len(t):]
    if rest[:1] and rest[:1] in b"KMGTPEZY":
        v *= 1024.0 ** (b"KMGTPEZY".index(rest[:1]) + 1)
    elif rest[:1] and rest[:1] in b"kmgtpezy":
        v *= 1000.0 ** (b"kmgtpezy".index(rest[:1]) + 1)
    return v


def fmt_power(x, two):
    """power2 and power10: an integer below 1000, else at most three digits and a letter"""
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    import math
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    v = float(r) if abs(x) < 2 ** 53 else abs(x)
    sg = "-" if math.copysign(1.0, x) < 0 else ""
    if v < 1000:
        return sg + "%d" % v
    base, letters = (1024.0, "0KMGTPEZY") if two else (1000.0, "0kmgtpezy")
    for e in range(1, 8):
        u = 1.0
        for _ in range(e):
            u *= base
        if v < 999.0 * u:
            if v >= 10.0 * u:
                return "%s%.0f%s" % (sg, v / u, letters[e])
            if v >= 1.1 * u:
                return "%s%.1f%s" % (sg, v / u, letters[e])
            return sg + "1" + letters[e]
    u = 1.0
    for _ in range(8):
        u *= base
    return "%s%.1f%s" % (sg, v / u, letters[8])
