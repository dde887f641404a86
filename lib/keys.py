"""Random key specifications together with their model."""
import gen
from model import Key

METHODS = ["", "plain", "lower", "len", "length", "num", "numeric", "float", "ip", "equal"]


def pick(rng, kinds, names, whole=True, equal_ok=True):
    """returns (list of -k values, list of [col, method, rev]) suited to the column kinds"""
    n = rng.choice([1, 1, 1, 2, 2, 3]) if rng.random() < 0.96 else rng.randint(4, 7)
    specs, ks = [], []
    for _ in range(n):
        c = rng.randrange(len(kinds))
        kind = kinds[c]
        if kind == "num":
            m = rng.choice(["num", "numeric", "float", "", "len", "plain"])
        elif kind == "bignum":
            m = rng.choice(["num", "numeric", "num", ""])
        elif kind == "float":
            m = rng.choice(["float", "float", "float", "", "len"])
        elif kind == "ip":
            m = rng.choice(["ip", "", "len"])
        else:
            m = rng.choice(["", "plain", "lower", "len", "length", "", "lower"])
        if equal_ok and rng.random() < 0.03:
            m = "equal"
        rev = rng.random() < 0.3
        mod = m
        if rev:
            mod = (m + ".rev") if (m and rng.random() < 0.5) else ("rev." + m if m else "rev")
        if whole and rng.random() < 0.15:
            if m in ("num", "numeric", "float", "ip"):
                # whole-line numeric comparison looks at the start of the line, i.e. the first column
                if kinds[0] != kind:
                    m = ""
                    mod = "rev" if rev else ""
            specs.append("," + mod if mod or rng.random() < 0.5 else "")
            ks.append([None, m, rev])
            continue
        if names and rng.random() < 0.6:
            cs = names[c]
        else:
            cs = str(c + 1)
        specs.append(cs + "," + mod if mod or rng.random() < 0.2 else cs)
        ks.append([c, m, rev])
    return specs, ks


def mk(ks, delim=b"\t"):
    return [Key(c, m, r, delim) for c, m, r in ks]


KINDS = ["text", "text", "num", "ip", "key", "small", "nasty", "bignum", "float"]


def sortable(rng, tier="quick", ncols=None):
    """a table description: kinds, names or None"""
    nc = ncols or gen.width(rng, 1, 4)
    kinds = [rng.choice(KINDS) for _ in range(nc)]
    nm = gen.names(rng, nc) if rng.random() < 0.6 else None
    return kinds, nm
