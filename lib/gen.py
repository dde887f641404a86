"""Workload generators shared by the property modules (all output is str in
latin-1, so that cases serialise to JSON)."""
import model

WORDS = ["a", "b", "ab", "A", "B", "aB", "abc", "x", "", "zz", "a b", "abcdefgh", "abcdefghi",
         "abcdefghj", "ABCDEFGHI", "foo", "bar", "Foo", "10", "9", "1.5", "-3", "2k"]


def word(rng, lo=0, hi=6, alpha="abcABC"):
    return "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def nasty(rng, delim="\t"):
    """arbitrary bytes, no newline and no delimiter"""
    n = rng.choice([0, 1, 1, 2, 3, 7, 8, 9, 12])
    pool = "\x00\x01 \r\"'\\,.|;:-+0aA~z\x7f\x80\xc3\xa9\xff"
    s = "".join(rng.choice(pool) for _ in range(n))
    return s.replace(delim, "_").replace("\n", "_")


def text(rng):
    r = rng.random()
    if r < 0.004:
        return word(rng, 1, 9) * rng.choice([10, 30, 31, 32, 64, 100, 256, 300])
    if r < 0.0045:
        return word(rng, 2, 3) * rng.choice([16384, 30000, 32768]) + word(rng)
    if r < 0.45:
        return rng.choice(WORDS)
    if r < 0.8:
        return word(rng)
    if r < 0.9:
        # long common prefix, differing late
        return "prefix__" + word(rng, 0, 3)
    return nasty(rng)


def number(rng):
    """a plain decimal number; never a negative zero"""
    r = rng.random()
    if r < 0.4:
        s = str(rng.randint(0, 12))
    elif r < 0.6:
        s = str(rng.randint(0, 99999))
    elif r < 0.75:
        s = "%d.%d" % (rng.randint(0, 5), rng.randint(0, 40))
    elif r < 0.85:
        s = "%d.%s" % (rng.randint(0, 3), rng.choice(["5", "50", "05", "25", "125", "0"]))
    elif r < 0.92:
        s = "0" * rng.randint(1, 2) + str(rng.randint(0, 30))
    else:
        s = str(rng.randint(10 ** 15, 10 ** 15 + 4))
    if rng.random() < 0.3 and s.strip("0.,") != "":
        s = "-" + s
    return s


def bignum(rng):
    """arbitrary length numbers, commas, leading blanks, trailing junk"""
    n = rng.choice([1, 2, 3, 5, 18, 25]) if rng.random() < 0.98 else rng.choice([40, 64, 255, 256, 257, 300, 600])
    s = rng.choice("123") + "".join(rng.choice("0123456789") if rng.random() < 0.3 else "0" for _ in range(n - 1))
    if n > 3 and rng.random() < 0.5:
        s = "{:,}".format(int(s))
    if rng.random() < 0.3:
        s += "." + rng.choice(["0", "5", "50", "49", "123456789012345678901", "123456789012345678902"])
        if rng.random() < 0.2:
            s = s[s.index("."):]
            if s == ".0":
                s = ".03"
    if rng.random() < 0.3:
        s = "-" + s
    if rng.random() < 0.1:
        s = " " * rng.randint(1, 2) + s
    if rng.random() < 0.1:
        s += rng.choice(["X", "kg", " apples"])
    return s


def fnum(rng):
    """floating point text, many of them close to each other; never a negative zero"""
    r = rng.random()
    if r < 0.3:
        s = number(rng).lstrip("-")
    elif r < 0.55:
        s = rng.choice(["0.1", "0.5", "1", "0.001", "12", "1234567"]) + rng.choice(["", "0", ".0"][:2] if rng.random() < 0.5 else [""])
        f = float(s)
        for _ in range(rng.randint(0, 3)):
            f = f + f * 2.220446049250313e-16 * rng.choice([-1, 1])
        s = repr(f)
    elif r < 0.75:
        s = "%d%s%s%d" % (rng.randint(1, 99), rng.choice("eE"), rng.choice(["", "-", "+", "-"]), rng.choice([0, 1, 2, 5, 16, 20, 200, 300, 320]))
    elif r < 0.85:
        s = "." + rng.choice(["5", "25", "125", "50", "1", "01", "001"])
    elif r < 0.92:
        s = rng.choice(["4.9e-324", "1e-323", "1.5e-323", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.7976931348623157e308", "1.7976931348623155e308"])
    else:
        s = rng.choice(["1k", "2k", "1K", "1000", "1024", "3.5M", "1m", "4G", "2g", "1t", "1T", "1P", "1p", "7z", "1Z", "2Y", "2y", "1e3k", "1E", "1e", "2E", "5kg", "1023", "1.5K", "1536"] if rng.random() < 0.5 else ["9007199254740992", "9007199254740993", "9007199254740994", "9007199254740995", "9007199254740992.5", "3.", "3.0"])
    if rng.random() < 0.35 and model.floatval(s.encode()) != 0:
        s = "-" + s
    return s


def near(rng, v, kind):
    """a value close to v, of the same kind"""
    if kind in ("num", "bignum", "ip"):
        at = [i for i, c in enumerate(v) if c in "0123456789"]
        if not at:
            return v
        i = rng.choice(at + at[-1:] * 2)
        r = rng.random()
        if r < 0.5:
            v = v[:i] + rng.choice("0123456789") + v[i + 1:]
        elif r < 0.7:
            v = v[:i] + v[i + 1:]
        elif r < 0.9:
            v = v[:i + 1] + rng.choice("00159") + v[i + 1:]
        else:
            v = v[1:] if v.startswith("-") else "-" + v
        return v if kind == "ip" else model.nozero(v)
    if kind in ("text", "nasty"):
        i = rng.randint(0, len(v))
        r = rng.random()
        if r < 0.3:
            return v[:i] + rng.choice("aAbz\0 \x80") + v[i + 1:]
        if r < 0.5:
            return v[:i] + v[i + 1:]
        if r < 0.8:
            return v[:i] + rng.choice("aA\0 ") + v[i:]
        return v.swapcase() if v.isascii() else v + "a"
    return v


def ip(rng):
    n = rng.choice([1, 2, 3, 4, 4, 4, 4, 4, 4, 5, 6, 8])
    if n > 4:
        return ".".join(str(rng.choice([1, 1, 1, 1, 1, 10])) for _ in range(n))
    return ".".join(str(rng.choice([0, 1, 2, 9, 10, 11, 100, 99, 255])) for _ in range(n))


def cell(rng, kind):
    if kind == "num":
        return number(rng)
    if kind == "ip":
        return ip(rng)
    if kind == "float":
        return fnum(rng)
    if kind == "bignum":
        return bignum(rng)
    if kind == "key":
        return rng.choice(["a", "b", "c", "ab", "B", "", "abcdefghi", "abcdefghz"])
    if kind == "small":
        return rng.choice("abc")
    if kind == "nasty":
        return nasty(rng)
    return text(rng)


NAMES = ["one", "two", "three", "four", "five", "six", "Col", "x_1", "name", "value", "on", "One", "names", "x_12", "val", "values", "threes"]


def names(rng, n):
    v = list(NAMES)
    rng.shuffle(v)
    if n > len(v):
        v += ["w%d" % i for i in range(n - len(v))]
        rng.shuffle(v)
    return v[:n]


def width(rng, lo, hi, p=0.05):
    """a number of columns (or of files): mostly small, now and then past the usual thresholds"""
    if rng.random() < p:
        return rng.choice([8, 9, 10, 11, 12, 15, 16, 17, 20, 32, 33, 40, 63, 64, 65, 70, 129, 130, 257])
    return rng.randint(lo, hi)


def table(rng, ncols, nrows, kinds=None, ragged=0.0, close=0.0):
    """rows of cells.  The first cell never makes a line look like a header."""
    kinds = kinds or [rng.choice(["text", "num", "key", "text"]) for _ in range(ncols)]
    rows = []
    for _ in range(nrows):
        r = [cell(rng, k) for k in kinds]
        if close and rows:
            q = rng.choice(rows)
            for i in range(min(len(q), len(r))):
                if rng.random() < close:
                    r[i] = near(rng, q[i], kinds[i]) if rng.random() < 0.5 else q[i]
        if ragged and rng.random() < ragged:
            r = r[:rng.randint(1, ncols)] + (["extra"] if rng.random() < 0.3 else [])
        if r[0].startswith(" CDX"):
            r[0] = "x"
        rows.append(r)
    return rows


def nrows(rng, tier="quick"):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.2:
        return rng.randint(1, 2)
    if r < 0.85:
        return rng.randint(3, 14)
    if r < 0.98:
        return rng.randint(15, 60)
    if r < 0.995:
        return rng.randint(100, 400)
    return rng.randint(1000, 2500)


def huge(rng, p=0.001):
    """a number of lines past 16 bits, rarely; otherwise 0"""
    return rng.choice([65530, 65536, 65540, 66000]) + rng.randint(0, 9) if rng.random() < p else 0


def dump(header, rows, delim="\t", final_nl=True):
    """file content as str(latin-1)"""
    out = []
    if header:
        out.append(" CDX" + delim + delim.join(header) + "\n")
    for r in rows:
        out.append(delim.join(r) + "\n")
    s = "".join(out)
    if not final_nl and rows and s.endswith("\n") and rows[-1] != [""]:
        s = s[:-1]
    return s


def fit(rng, s, ok=True, p=0.02):
    """sometimes, if ok, lengthen the last line so that the file is a multiple of some buffer size, give or take a few bytes"""
    if not ok or not s or rng.random() > p:
        return s
    nl = s.endswith("\n")
    body = s[:-1] if nl else s
    size = rng.choice([4096, 8192, 16384]) * rng.choice([1, 2, 3, 4, 5]) + rng.choice([0, 0, 4, 4, -1, 1, 3, 5])
    return body + "z" * max(0, size - len(s)) + ("\n" if nl else "")


def lines(b):
    """split bytes into lines without newline; b must be newline terminated or empty"""
    if not b:
        return []
    v = b.split(b"\n")
    if v[-1] == b"":
        v.pop()
    return v
