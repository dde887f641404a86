"""C38: the library's column sets and scoped values resolve alike and select the right columns of every line."""
import os
import struct
import sys
from vf import HARNESS as EXE, Violation
import colspec

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c37  # noqa: E402  (the reading of numbers)

ID = "C38"
HARNESS = "cols"
QUICK, THOROUGH = 20000, 300000
RULE = ("one case = 20 sets of column names with up to three specifications to include and up to three to leave out (names, numbers, numbers from the end, ranges, matchers, renames, double negation), a line with "
        "fewer, as many or more columns, and values scoped by specifications; the set is asked to select and write in every way before any lookup, after a lookup, and after a lookup with the names reversed; "
        "distinct = (specifications, columns chosen, line length)")
ASSUMPTIONS = ["specifications are generated as valid for their names, apart from those meant to be refused"]
BATCH = 20


def hx(s):
    return s.encode().hex()


def enc(v):
    return ",".join(hx(x) for x in v) if v else "-"


def names_of(rng):
    pool = ["a", "b", "name", "val", "value", "x_1", "x_2", "Zed", "id", "key", "count", "ñame", "日付", "aa", "ab", "abc", "c1", "c10", "n", "total"]
    if rng.random() < 0.05:
        pool += ["wide_%d" % i for i in range(300)]
        return rng.sample(pool, rng.choice([20, 33, 65, 130, 257]))
    return rng.sample(pool, rng.choice([1, 2, 3, 4, 5, 6, 9, 14]))


def val(rng):
    return rng.choice(["", "0", "7", "-3", "+12", "2k", "1M", "1.5", "-0.25", "1e3", "99999999999999999999", "x", "3x", "ñ", "a,b"])


def pieces(rng, names):
    """(text, [(negated, cols, newname)]) for one comma separated specification"""
    out, parts = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t, cols = colspec.piece(rng, names, True)
        neg = rng.random() < 0.2
        nm = ""
        if rng.random() < 0.2:
            nm = rng.choice(["new", "other", "n_1"])
            t = nm + ":" + t
        out.append("~" * neg + t)
        parts.append([neg, cols, nm])
    return ",".join(out), parts


def gen(rng, idx, tier):
    cs = []
    for _ in range(BATCH):
        names = names_of(rng)
        yes = [list(pieces(rng, names)) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        no = [list(pieces(rng, names)) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]
        bad = ""
        if rng.random() < 0.1:
            bad = rng.choice(["nosuch", "0", "+0", "+%d" % (len(names) + 1), "2-1", "1-2-3", "nosuch-", "-nosuch", "~nosuch", "1,nosuch", "a:", "~"])
            (yes if rng.random() < 0.7 else no).append([bad, None])
        w = rng.choice([len(names)] * 4 + [0, 1, len(names) - 1, len(names) + 1, len(names) + 3])
        line = [rng.choice(["", "v", "two words", "ñ", "0", "x" * 40]) + str(i) * rng.randint(0, 1) for i in range(max(w, 1))]
        svs = [[val(rng), list(pieces(rng, names))] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        cs.append({"names": names, "yes": yes, "no": no, "line": line, "rest": rng.choice(["", "R", "rest"]), "default": val(rng), "svs": svs})
    return {"files": {}, "cases": cs}


class Refused(Exception):
    pass


def resolve(specs, names, order):
    """[(col, newname)] for specs = [(negate, [(neg, cols, name)] or None)] where the columns stand in another order"""
    yes, no, any_ = [], set(), False
    for negate, parts in specs:
        if parts is None:
            raise Refused()
        for neg, cols, nm in parts:
            if neg != negate:
                no |= set(cols)
            else:
                any_ = True
                yes += [(c, nm) for c in cols]
    return colspec.resolve(yes, no, any_, len(names))


def by_text(text, names):
    """columns of one specification resolved from its text; used when the names are reversed"""
    parts = []
    depth, cur, items = 0, "", []
    for ch in text:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and depth == 0:
            items.append(cur)
            cur = ""
        else:
            cur += ch
    items.append(cur)
    for it in items:
        neg = it.startswith("~")
        it = it[neg:]
        nm, _, r = it.partition(":") if ":" in it.split("(")[0] else ("", "", it)
        if not r:
            raise Refused()
        if r.startswith("("):
            raise LookupError
        ab = r.split("-")
        if len(ab) > 2:
            raise Refused()
        ab[0] = ab[0] or "1"
        if len(ab) == 2:
            ab[1] = ab[1] or "+1"
        idx = []
        for x in ab:
            if x[0] == "+":
                k = len(names) - int(x[1:])
                if not 0 <= k < len(names):
                    raise Refused()
            elif x[0] in "123456789":
                k = int(x) - 1
            elif x in names:
                k = names.index(x)
            else:
                raise Refused()
            idx.append(k)
        if idx[0] > idx[-1]:
            raise Refused()
        parts.append([neg, list(range(idx[0], idx[-1] + 1)), nm])
    return parts


def parts_for(text, parts, names, back):
    """the meaning of one specification, the names being reversed or not"""
    if parts is None:
        return by_text(text, names)
    if not back:
        return parts
    if "(" not in text:
        return by_text(text, names)
    # matchers choose names, and the names are numbered from the other side
    out = []
    w = len(names)
    depth, cur, items = 0, "", []
    for ch in text:
        depth += (ch == "(") - (ch == ")")
        if ch == "," and depth == 0:
            items.append(cur)
            cur = ""
        else:
            cur += ch
    items.append(cur)
    for it, (neg, cols, nm) in zip(items, parts):
        if "(" in it:
            out.append([neg, sorted(w - 1 - c for c in cols), nm])
        else:
            out += by_text(it, names)
    return out


def bits(f):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]


def selections(cols, line, rest):
    """every way of selecting, for columns = [(col, name)] or None before any lookup"""
    if cols is None:
        return [(k, "err") for k in ("select", "select_sloppy", "write", "write2", "write3", "write3s", "write_sloppy")]
    w = len(line)
    short = any(c >= w for c, _ in cols)
    lax = [line[c] if c < w else "" for c, _ in cols]
    fill = [line[c] if c < w else rest for c, _ in cols]
    return [("select", "err" if short else hx("\n".join(lax))), ("select_sloppy", hx("\n".join(fill))),
            ("write", "err" if short else hx("::".join(lax) + "\n")), ("write2", hx(";".join(lax) + "\n")),
            ("write3", hx("\t".join(lax))), ("write3s", hx(";".join(lax))), ("write_sloppy", hx("".join(fill)))]


def nums(cols):
    return ",".join(str(c) for c, _ in cols)


def full(cols):
    return ",".join("%d:%s" % (c, hx(n)) for c, n in cols)


def model(c):
    names, line, rest = c["names"], c["line"], c["rest"]
    specs = [(False, t, p) for t, p in c["yes"]] + [(True, t, p) for t, p in c["no"]]
    o = [("add", "true"), ("empty", "true" if not specs else "false")] + selections(None, line, rest)
    for back in (False, True):
        nm = names[::-1] if back else names
        try:
            cols = resolve([(n, parts_for(t, p, nm, back)) for n, t, p in specs], nm, None)
        except Refused:
            o.append(("lookup", "false"))
            continue
        o += [("lookup", "true"), ("nums", nums(cols)), ("full", full(cols))] + selections(cols, line, rest)
    for t, p in c["yes"]:
        try:
            cols = resolve([(False, parts_for(t, p, names, False))], names, None)
            o += [("lookup_cols", nums(cols)), ("lookup_cols_full", full(cols)), ("ranges", full(cols)), ("lookup1", str(cols[0][0]) if len(cols) == 1 else "err")]
        except Refused:
            o += [(k, "err") for k in ("lookup_cols", "lookup_cols_full", "ranges", "lookup1")]
        o.append(("lookup_col", str(names.index(t)) if t in names else "err"))
    for i in range(len(line) + 2):
        o.append(("get_col", hx(line[i]) if i < len(line) else ""))
    o += [("sv", "true"), ("sv_empty", "false" if c["svs"] else "true")]
    w = len(names)
    for back in (False, True):
        nm = names[::-1] if back else names
        vals, has, ok = [c["default"]] * w, [False] * w, True
        try:
            for v, (t, p) in c["svs"]:
                for k, _ in resolve([(False, parts_for(t, p, nm, back))], nm, None):
                    vals[k], has[k] = v, True
        except (Refused, IndexError):
            ok = False
        o.append(("sv_lookup", "true" if ok else "false"))
        if not ok:
            continue
        vals, has = vals + [vals[-1]] * 2, has + [False] * 2
        o += [("sv_get", "%s,%s" % (hx(v), "true" if h else "false")) for v, h in zip(vals, has)]
        for name, one, f, show in (("ints", "sv_int", lambda x: c37.num(x, True, 2 ** 63 - 1), str), ("floats", "sv_float", c37.flt, bits)):
            r = [f(v.encode()) for v in vals]
            good = all(x[1] == 0 for x in r)
            o.append((name, "true" if good else "false"))
            if good:
                o += [(one, show(x[0])) for x in r]
    return o


def judge(ctx, case):
    cs = case["cases"]
    text = ""
    for c in cs:
        sv = [c["default"]]
        for v, (t, _) in c["svs"]:
            sv += [v, t]
        text += " ".join(enc(x) for x in (c["names"], [t for t, _ in c["yes"]], [t for t, _ in c["no"]], c["line"], [c["rest"]], sv)) + "\n"
    r = ctx.good(["cols"], stdin=text.encode(), exe=EXE)
    lines = r.out.decode().split("\n")[:-1]
    if len(lines) != len(cs):
        raise Violation("not every case was answered", got=len(lines), want=len(cs))
    sigs = []
    for c, l in zip(cs, lines):
        got = [x.split("=", 1) for x in l.split(" ")]
        want = model(c)
        for i, (k, w) in enumerate(want):
            if i >= len(got) or got[i] != [k, w]:
                raise Violation("%s is not as specified" % k, got=got[i] if i < len(got) else None, want=[k, w], place=i, case=c)
        if len(got) != len(want):
            raise Violation("more answers than asked for", got=got[len(want):], case=c)
        ctx.count("answers", len(want))
        sigs.append("%s|%s|%d" % ([t for t, _ in c["yes"]], [t for t, _ in c["no"]], len(c["line"])))
    return sigs[0]
