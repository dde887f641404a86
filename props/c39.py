"""C39: a matcher gives the same, right answer by every route the library offers."""
import re
from fractions import Fraction

import c14
import gen as G
import matchers as X
import model as M
from vf import HARNESS as EXE, Violation, s2b

ID = "C39"
HARNESS = "match"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = a batch of 12: single matchers (every method and modifier) asked about values by smatch, umatch, lossy_match, do_match and do_match_safe, as made from two parts, as made from one specification, and as a "
        "copy and a copy of a copy; lists of value matchers with AND and OR, plain and verbose; lists of line matchers by every call, plain and verbose, before and after a lookup with other columns; and every quantifier's "
        "early and final answers for all counts up to a bound; answers are compared with an independent evaluation, and the verbose calls must write exactly when they fail; distinct = (kind, methods and modifiers, answers)")
ASSUMPTIONS = ["as C14; a bytes matcher asked about a string (or the other way round) is judged only on printable ASCII"]
BATCH = 12


def hx(b):
    return b.hex() if b else ""


def enc(v):
    return ",".join(hx(x) for x in v) if v else "-"


def values(rng, asc):
    pool = ["text", "num", "key", "ip", "blank", "small"]
    out = []
    for _ in range(rng.randint(2, 8)):
        v = c14.cell(rng, rng.choice(pool if asc else pool + ["nasty", "utf", "utf"]))
        if asc:
            v = "".join(c for c in v if 31 < ord(c) < 127)
        out.append(M.nozero(v.replace("\t", "_").replace("\n", "_")))
    if rng.random() < 0.05:
        out.append(G.word(rng, 1, 3) * rng.choice([20, 60, 100]))
    return out


def gen(rng, idx, tier):
    files, cases = {}, []
    for b in range(BATCH):
        kind = rng.choice("MMMMMLLLLXXXD")
        asc = rng.random() < 0.6
        c = {"kind": kind}
        if kind == "D":
            det, n, t = X.quant(rng, 0, 9)
            c.update(det=det, n=n, text=t, top=rng.choice([3, 6, 12]))
        elif kind == "X":
            w = G.width(rng, 1, 5)
            names = G.names(rng, w)
            rows = []
            for _ in range(rng.randint(1, 6)):
                r = [x for _ in range(3) for x in values(rng, asc)]
                while len(r) < w:
                    r += r
                rows.append(r[:w] if rng.random() < 0.9 else r[:rng.randint(1, w)])
            ms = [X.line_matcher(rng, names, True, rows, files, asc, "p%d_%d" % (b, k)) for k in range(rng.choice([1, 1, 2, 3]))]
            c.update(names=names, rows=rows, ms=[list(m) for m in ms], comb=rng.choice(["and", "or"]))
        else:
            vs = values(rng, asc)
            n = 1 if kind == "M" else rng.choice([0, 1, 2, 2, 3])
            ms = [list(X.make(rng, vs, files, asc, "p%d_%d" % (b, k))) for k in range(n)]
            c.update(vals=vs, ms=ms, comb=rng.choice(["and", "or"]))
        cases.append(c)
    return {"files": files, "cases": cases}


def line_of(c):
    if c["kind"] == "D":
        return "D %s %d" % (hx(c["text"].encode()), c["top"])
    if c["kind"] == "X":
        return "X %s %s %s %s" % (c["comb"], enc([s2b(x) for x in c["names"]]), enc([m[0].encode("utf8") for m in c["ms"]]), enc([s2b("\t".join(r)) for r in c["rows"]]))
    vals = enc([s2b(v) for v in c["vals"]])
    if c["kind"] == "M":
        t, p, _ = c["ms"][0]
        return "M %s %s %s" % (hx(t.encode("utf8")), hx(p.encode("utf8")), vals)
    return "L %s %s %s" % (c["comb"], enc([("%s,%s" % (t, p) if p else t).encode("utf8") for t, p, _ in c["ms"]]), vals)


def valid(v):
    try:
        v.decode("utf8")
        return True
    except UnicodeDecodeError:
        return False


def plain(v, m):
    """a value and matcher for which text and bytes are the same thing"""
    ps = m.get("pats", [m["pat"]]) + m.get("lines", [])
    return all(31 < b < 127 for b in v) and all(ord(ch) < 128 for p in ps for ch in p)


def final(det, n, yes, no):
    tot = yes + no
    if "." in n and (Fraction(n) * tot * 2) % 2 == 1:
        return None
    return X.determiner(det, n, yes, tot)


def judge(ctx, case):
    cs = case["cases"]
    r = ctx.good(["match"], ("\n".join(line_of(c) for c in cs) + "\n").encode(), exe=EXE)
    out = r.out.decode().split("\n")[:-1]
    if len(out) != len(cs):
        raise Violation("answers for %d of %d cases" % (len(out), len(cs)), run=r.brief())
    said = {}
    cur = None
    whole = len(r.err) < 1 << 20        # more is cut off, so what was said last is not known
    for ln in r.err.split(b"\n")[:-1]:
        m = re.match(rb"@@ ([0-9]+) ([0-9]+) ([a-z]+[01])\Z", ln)
        if m:
            cur = (int(m[1]), int(m[2]), m[3].decode())
            said[cur] = b""
        elif cur is not None:
            said[cur] += ln + b"\n"
    sigs = []

    def need(ok, what, c, **kw):
        if not ok:
            raise Violation(what, case=c, run=r.brief(), **kw)
    for k, (c, o) in enumerate(zip(cs, out)):
        ans = o.split(" ") if o else []
        ctx.count("kind_" + c["kind"])
        if c["kind"] == "D":
            top = c["top"]
            fin, mid = {}, {}
            for y in range(top + 1):
                for n in range(top + 1):
                    fin[y, n], mid[y, n] = ans[y][2 * n] == "1", ans[y][2 * n + 1]
                    want = final(c["det"], c["n"], y, n)
                    need(want is None or want == fin[y, n], "%s with %d yes and %d no is %s" % (c["text"], y, n, fin[y, n]), c)
            for y in range(top + 1):
                for n in range(top + 1):
                    if mid[y, n] != "M":
                        for y2 in range(y, top + 1):
                            for n2 in range(n, top + 1):
                                if y2 + n2 > y + n:
                                    need(fin[y2, n2] == (mid[y, n] == "Y"), "%s is settled as %s at %d yes and %d no, but is %s at %d and %d"
                                         % (c["text"], mid[y, n], y, n, fin[y2, n2], y2, n2), c)
            sigs.append(("D", c["text"]))
            continue
        if c["kind"] == "X":
            rows = [s2b("\t".join(x)) for x in c["rows"]]
            need(len(ans) == 2 * len(rows), "wrong number of answers", c)
            seen = set()
            for i, a in enumerate(ans):
                v = rows[i % len(rows)]
                res = [X.line_eval(m[1], v) for m in c["ms"]]
                al, an = all(res), any(res)
                me = al if c["comb"] == "and" else an
                want = "".join("01"[x] for x in (al, an, al, an, me, me, al, an, al, an, me, me))
                need(a == want, "line matchers answer %s, not %s (and, or, tagged and, tagged or, list, trait; then verbose)" % (a, want), c, line=v.decode("latin-1"), specs=[m[0] for m in c["ms"]])
                for t, x in (("va", al), ("vo", an), ("ta", al), ("to", an), ("v", me), ("d", me)):
                    s = said.get((k, i % len(rows), "%s%d" % (t, i >= len(rows))), None)
                    need(not whole or s is not None and bool(s) != x, "verbose call (%s) answered %s and wrote %r" % (t, x, s), c, line=v.decode("latin-1"))
                seen.add(a)
            sigs.append(("X", c["comb"], tuple(m[1]["t"] for m in c["ms"]), tuple(sorted(seen))))
            continue
        vals = [s2b(v) for v in c["vals"]]
        if c["kind"] == "M":
            t, p, m = c["ms"][0]
            utf8 = "utf8" in m["mods"]
            need(len(ans) == len(vals), "wrong number of answers", c)
            for v, a in zip(vals, ans):
                want = "01"[X.evaluate(m, v)]
                ok = valid(v)
                for way, x in zip(("made from two parts", "made from one specification", "copied", "copied twice"), a.split("/")):
                    exp = [None, None, want, want if ok or not utf8 else "E", want if ok or not utf8 else "0"]
                    if utf8 and ok or plain(v, m):
                        exp[0] = want
                    if not ok:
                        exp[0] = "-"
                    if not utf8 or plain(v, m):
                        exp[1] = want
                    for nm, e, g in zip(("smatch", "umatch", "lossy_match", "do_match", "do_match_safe"), exp, x):
                        need(e is None or e == g, "matcher %r %s: %s of %r is %s, not %s" % (t + "," + p, way, nm, v, g, e), c)
            sigs.append(("M", m["k"], tuple(sorted(m["mods"])), m.get("multi"), len(set(ans))))
            continue
        need(ans and ans[0] == "01"[not c["ms"]], "is_empty is wrong", c)
        need(len(ans) == len(vals) + 1, "wrong number of answers", c)
        for i, (v, a) in enumerate(zip(vals, ans[1:])):
            res = [X.evaluate(m[2], v) for m in c["ms"]]
            want = all(res) if c["comb"] == "and" else any(res)
            w = "01"[want]
            need(a[:4] == w * 4, "list of matchers: umatch of %r is %s, not %s" % (v, a[:4], w), c)
            asks = ["u0", "u1"]
            if valid(v):
                if all("utf8" in m[2]["mods"] or plain(v, m[2]) for m in c["ms"]):
                    need(a[4:] == w * 6, "list of matchers: smatch of %r is %s, not %s" % (v, a[4:], w), c)
                    asks += ["s0", "s1", "t0", "t1"]
                else:
                    need(len(set(a[4:])) == 1, "list of matchers: smatch of %r is %s by different routes" % (v, a[4:]), c)
            for q in asks:
                s = said.get((k, i, q))
                fail = want == (q[1] == "1")
                need(not whole or s is not None and bool(s) == fail, "verbose match (%s) of %r answered %s and wrote %r" % (q, v, w, s), c)
        sigs.append(("L", c["comb"], tuple(m[2]["k"] for m in c["ms"]), len(set(ans))))
    return tuple(sigs[:2])
