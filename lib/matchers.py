"""Matchers: generator of matcher specifications and an independent evaluator."""
import re
from fractions import Fraction

import colspec as S
import model as M

WS = " \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
RX_ASCII = ["^a", "b$", "a.c", "[ab]+", "^$", "x|y", "^[0-9]+$", "a{2}", "^.{3}$", "", "(a|b)c?$", "^[^a]*$", "o+", "-"]
RX_ANY = ["^a", "b$", "[ab]+", "^$", "x|y", "a{2}", "", "(a|b)c?$", "o+", "-"]


def is_ascii(b):
    return all(c < 128 for c in b)


def near(rng, vals):
    """a pattern text related to the data"""
    v = rng.choice(vals) if vals else "a"
    try:
        v = v.encode("latin-1").decode("utf8")
    except UnicodeDecodeError:
        v = "a"
    v = v.replace("\x00", "").replace("\r", "").replace("\\", "")
    r = rng.random()
    if r < 0.5:
        return v
    if r < 0.8 and len(v) > 1:
        a = rng.randrange(len(v))
        b = rng.randrange(a, len(v)) + 1
        return v[a:b]
    if r < 0.9:
        return v.swapcase()
    return rng.choice(["a", "b", "", "x", "1", "é"])


def make(rng, vals, files, ascii_only, name="pat", multi=True, comma=True):
    """[spec text 'mods.method', pattern, model] for one value matcher; may add a file to `files`"""
    k = rng.choice(["prefix", "suffix", "infix", "exact", "exact", "glob", "glob", "regex", "length", "range", "range", "file-exact", "fileexact",
                    "float", "integer", "number", "ip", "yes", "empty", "blank", "comment", "hash", "slash", "substr", "substring"])
    mods = []
    for m, p in (("not", 0.25), ("trim", 0.15), ("null", 0.12), ("case", 0.3), ("utf8", 0.25)):
        if rng.random() < p:
            mods.append(m)
    pat = ""

    def close():
        p = near(rng, vals)
        if "case" in mods and rng.random() < 0.6:
            q = "".join(rng.choice([c.upper(), c.lower()]) for c in p)
            if len(q) == len(p) and q.lower() == p.lower():
                return q
        return p
    if k in ("prefix", "suffix", "infix", "exact", "substr", "substring", "comment"):
        pat = close()
    elif k == "glob":
        pat = "".join(rng.choice(["*", "?"] + [c] * rng.choice([4, 15])) for c in close())
        if rng.random() < 0.3:
            pat = rng.choice(["*", "?", "**", "*a*", "a*b", "*b", "a*", "?*", "*?*?", "*a*b*"])
    elif k == "regex":
        pat = rng.choice(RX_ASCII if ascii_only else RX_ANY)
        if not pat and not comma:
            pat = "^a"
    elif k == "length":
        a = rng.randint(0, 6)
        pat = str(a) if rng.random() < 0.3 else "%d,%d" % (a, rng.randint(a, 9))
    elif k == "range":
        comp = rng.choice(["", "", "plain", "num", "float", "lower", "ip", "len", "length"])
        ops = ["<", ">", "<=", ">=", "==", "!="]

        def val():
            if comp in ("num", "float"):
                return rng.choice(["5", "-3", "10", "1.5", "0", "9"])
            if comp in ("len", "length"):
                return "x" * rng.randint(1, 7)
            if comp == "ip":
                return rng.choice(["1.2.3.4", "10", "9.9"])
            t = re.sub("[^a-zA-Z0-9]", "", near(rng, vals))
            return t or "m"
        bits = [[rng.choice(ops), val()]]
        if rng.random() < 0.4:
            bits.append([rng.choice(ops), val()])
        if rng.random() < 0.25:
            names = dict(zip(ops, ["LT", "GT", "LE", "GE", "EQ", "NE"]))
            pat = ",".join("%s,%s" % (names[o], v) for o, v in bits)
        else:
            pat = "".join(o + v for o, v in bits)
        if comp:
            pat = comp + "," + pat
        model = {"comp": comp, "bits": bits}
    elif k in ("file-exact", "fileexact"):
        ls = [close() for _ in range(rng.randint(1, 5))]
        ls = [x for x in ls if not x.startswith(" CDX") and "\n" not in x]
        files[name] = "".join(x.encode("utf8").decode("latin-1") + "\n" for x in ls)
        if rng.random() < 0.3 and files[name].endswith("\n"):
            files[name] = files[name][:-1]
        pat = name
        model = {"lines": ls}
    out = {"k": {"substr": "infix", "substring": "infix", "fileexact": "file-exact"}.get(k, k), "pat": pat, "mods": list(mods)}
    if k in ("range", "file-exact", "fileexact"):
        out.update(model)
    text = k
    if multi and k in ("prefix", "suffix", "infix", "exact", "glob", "comment", "regex") and rng.random() < 0.2:
        comb = rng.choice(["and", "or"])
        rx = RX_ASCII if ascii_only else RX_ANY
        pats = [pat] + [rng.choice(rx) if k == "regex" else close() for _ in range(rng.randint(0, 3))]
        d = rng.choice("/;|")
        if k == "regex":
            d = ";"
        pats = [p.replace(d, "") for p in pats]
        out["multi"] = comb
        out["pats"] = pats
        mods = mods + [comb]
        pat = d + d.join(pats)
    w = [k] + mods
    rng.shuffle(w)
    if k == "regex" and rng.random() < 0.5:
        w.remove("regex")
    if rng.random() < 0.2:
        w = [x.upper() if x in ("not", "trim", "null", "case", "utf8", "and", "or") else x for x in w]
    if not comma and "," in pat:
        return make(rng, vals, files, ascii_only, name, multi, comma)
    return ".".join(w), pat, out


def trim(v, utf8):
    if utf8:
        return v.strip(WS)
    return v.strip(bytes(range(33)))


def low(v):
    return M.lower(v) if isinstance(v, bytes) else v.lower()


def opok(op, c):
    return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]


def glob_match(p, v):
    """segment by segment, leftmost first, so never slow; p and v are both str or both bytes"""
    star, q, dot = ("*", "?", ".") if isinstance(p, str) else (b"*", b"?", b".")
    segs = [re.compile(dot.join(re.escape(x) for x in s.split(q)), re.S) for s in p.split(star)]
    lens = [len(s) for s in p.split(star)]
    if len(segs) == 1:
        return segs[0].fullmatch(v) is not None
    if len(v) < lens[0] + lens[-1] or not segs[0].match(v) or not segs[-1].fullmatch(v, len(v) - lens[-1]):
        return False
    pos, end = lens[0], len(v) - lens[-1]
    for r in segs[1:-1]:
        m = r.search(v, pos, end)
        if not m:
            return False
        pos = m.end()
    return True


def one(m, v, pat, utf8, icase):
    """un-negated match of one pattern; v is bytes or str"""
    k = m["k"]
    raw = v if isinstance(v, bytes) else v.encode("utf8")
    p = pat if utf8 else pat.encode("utf8")
    if k == "comment":
        icase = False
    if icase and k in ("prefix", "suffix", "infix", "exact"):
        p = low(p)
        v = low(v)
    if k in ("prefix", "comment"):
        return v.startswith(p)
    if k == "hash":
        return raw.startswith(b"#")
    if k == "slash":
        return raw.startswith(b"//")
    if k == "suffix":
        return v.endswith(p)
    if k == "infix":
        return p in v
    if k == "exact":
        return v == p
    if k == "glob":
        if icase:
            p, v = low(p), low(v)
        return glob_match(p, v)
    if k == "regex":
        return re.search(pat.replace("$", r"\Z"), v if utf8 else v.decode("latin-1"), re.I if icase else 0) is not None
    if k == "length":
        a, _, b = pat.partition(",")
        return len(v) >= int(a) and (not b or len(v) <= int(b))
    if k == "range":
        comp = m["comp"]
        x = M.method_key(comp, raw)
        for op, t in m["bits"]:
            y = M.method_key(comp, t.encode())
            if not opok(op, -1 if x < y else 1 if x > y else 0):
                return False
        return True
    if k == "file-exact":
        ls = [x.encode("utf8") for x in m["lines"] if x]
        if icase:
            if utf8:
                return v.lower() in [x.decode().lower() for x in ls]
            return M.lower(raw) in [M.lower(x) for x in ls]
        return raw in ls
    rx = {"float": rb"-?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?\Z", "integer": rb"-?[0-9]+\Z", "number": rb"-?[0-9]+(\.[0-9]+)?\Z",
          "ip": rb"((25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\Z"}.get(k)
    if rx:
        return re.match(rx, raw) is not None
    if k == "yes":
        return True
    if k == "empty":
        return len(raw) == 0
    if k == "blank":
        return False
    raise ValueError(k)


def raw_eval(m, value):
    """does the matcher accept the value, before negation"""
    mods = m["mods"]
    utf8 = "utf8" in mods
    v = value.decode("utf8", "replace") if utf8 else value
    auto = m["k"] in ("blank", "comment", "hash", "slash")
    if "trim" in mods:
        v = trim(v, utf8)
        if "null" in mods and len(v) == 0:
            return True
    elif "null" in mods and len(v) == 0:
        return True

    def inner(p):
        x = v
        if auto:
            x = trim(x, utf8)
            if len(x) == 0:
                return True
        return one(m, x, p, utf8, "case" in mods)
    if "multi" in m:
        r = [inner(p) for p in m["pats"]]
        return all(r) if m["multi"] == "and" else any(r)
    return inner(m["pat"])


def evaluate(m, value):
    return raw_eval(m, value) ^ ("not" in m["mods"])


def determiner(det, n, yes, tot):
    no = tot - yes
    if det == "all":
        return no == 0
    if det == "some":
        return yes > 0
    if det == "none":
        return yes == 0
    if det == "notall":
        return no > 0
    if det == "mixed":
        return yes > 0 and no > 0
    if det == "uniform":
        return yes == 0 or no == 0
    k = no if det.endswith("no") else yes
    if "." in n:
        # the nearest count; gen avoids values half way between two
        t = int(Fraction(n) * tot + Fraction(1, 2))
    else:
        t = int(n)
    if det.startswith("atmost"):
        return k <= t
    if det.startswith("atleast"):
        return k >= t
    return k == t


DETS = ["all", "some", "none", "notall", "mixed", "uniform", "atmost", "atleast", "exactly", "atmostno", "atleastno", "exactlyno"]


def quant(rng, n, w):
    """a determiner for n columns: name, threshold, text"""
    det = rng.choice(DETS)
    if det[:2] not in ("at", "ex"):
        return det, "", det.upper() if rng.random() < 0.1 else det
    t = str(rng.randint(0, w))
    if rng.random() < 0.3:
        t = rng.choice(["0.0", "1.0", "0.25", "0.5", "0.4", "0.33", "0.667", "0.9", "0.1"] + ["%.2f" % rng.random()] * 5)
        if (Fraction(t) * n * 2) % 2 == 1:
            t = "1.0"
    return det, t, "%s,%s" % (det, t)


def collist(rng, names, hdr, cols):
    """text for these columns (ascending), now and then with ranges"""
    out, i = [], 0
    while i < len(cols):
        j = i
        while j + 1 < len(cols) and cols[j + 1] == cols[j] + 1 and rng.random() < 0.5:
            j += 1
        if j > i:
            out.append("%d-%d" % (cols[i] + 1, cols[j] + 1))
        else:
            out.append(S.single(rng, names, hdr, cols[i]))
        i = j + 1
    return ",".join(out)


def line_matcher(rng, names, hdr, rows, files, ascii_only, name="pat"):
    """(spec, model) for a matcher of whole lines"""
    w = len(names)
    r = rng.random()
    if r < 0.06:
        n = rng.randint(max(1, w - 1), w + 1)
        return ",count,%d" % n, {"t": "count", "n": n}
    if r < 0.16 and w > 1:
        c = rng.randrange(w)
        ops = {"<": "<", ">": ">", "<=": "<=", ">=": ">=", "==": "==", "!=": "!=", "LT.": "<", "GE.": ">=", "ne.": "!="}
        ot = rng.choice(list(ops))
        comp = rng.choice(["", "plain", "num", "lower", "float", "len", "ip"])
        det, dn = None, ""
        if rng.random() < 0.4:
            cols = sorted(rng.sample(range(w), rng.randint(1, w)))
            det, dn, dt = quant(rng, len(cols), w)
            ct = "[%s,%s]" % (dt, collist(rng, names, hdr, cols))
        else:
            cols = [rng.randrange(w)]
            ct = S.single(rng, names, hdr, cols[0])
        spec = "%s,comp,%s%s%s" % (S.single(rng, names, hdr, c), ot, ct, "," + comp if comp else "")
        return spec, {"t": "comp", "c": c, "op": ops[ot], "cols": cols, "det": det or "some", "n": dn, "comp": comp}
    if r < 0.3:
        vals = ["\t".join(x) for x in rows]
        vals = [v.replace("\t", "a") for v in vals]
        text, pat, m = make(rng, vals, files, ascii_only, name)
        return ",%s,%s" % (text, pat) if pat or rng.random() < 0.5 else ",%s" % text, {"t": "whole", "m": m}
    if r < 0.5:
        cols = sorted(rng.sample(range(w), rng.randint(1, w)))
        det, n, dt = quant(rng, len(cols), w)
        if rng.random() < 0.15:
            det, n, dt = "some", "", None
        vals = [x[c] for x in rows for c in cols if c < len(x)]
        text, pat, m = make(rng, vals, files, ascii_only, name)
        ct = collist(rng, names, hdr, cols)
        if dt is None and cols and any(ct.split(",")[0] == d for d in DETS):
            dt = "some"
        spec = "[%s%s],%s%s" % (dt + "," if dt else "", ct, text, "," + pat if pat else "")
        return spec, {"t": "set", "cols": cols, "det": det, "n": n, "m": m}
    c = rng.randrange(w)
    vals = [x[c] for x in rows if c < len(x)]
    text, pat, m = make(rng, vals, files, ascii_only, name)
    return "%s,%s%s" % (S.single(rng, names, hdr, c), text, "," + pat if pat else ""), {"t": "col", "c": c, "m": m}


def line_eval(m, line):
    if m["t"] == "count":
        return len(line.split(b"\t")) == m["n"]
    if m["t"] == "comp":
        x = M.method_key(m["comp"], M.col(line, m["c"]))
        yes = 0
        for c in m["cols"]:
            y = M.method_key(m["comp"], M.col(line, c))
            yes += opok(m["op"], -1 if x < y else 1 if x > y else 0)
        return determiner(m["det"], m["n"], yes, len(m["cols"]))
    if m["t"] == "whole":
        return evaluate(m["m"], line)
    if m["t"] == "set":
        yes = sum(raw_eval(m["m"], M.col(line, c)) for c in m["cols"])
        return determiner(m["det"], m["n"], yes, len(m["cols"])) ^ ("not" in m["m"]["mods"])
    return evaluate(m["m"], M.col(line, m["c"]))
