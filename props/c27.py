"""C27: verify succeeds exactly on the files that satisfy every stated condition, and names the lines that do not."""
import re

import gen as G
import keys as K
import matchers as X
import model as M
from vf import Violation, s2b

ID = "C27"
QUICK, THOROUGH = 12000, 240000
RULE = ("one case = 1-3 files and one `cdx verify` with any mix of --pattern (also expressions), --key, --sort, --unique, --first and --last ranges and --report; exit status is compared with "
        "an independent evaluation of all conditions on all lines, and on failure the lines named on stderr with the failing lines in order, up to the report limit; files are "
        "mostly valid with the violation planted anywhere, often only on the first or last line; distinct = (conditions, verdict, what failed where)")
ASSUMPTIONS = ["numeric columns hold plain decimal numbers without negative zero", "range values avoid commas and operators"]
OPS = ["<", ">", "<=", ">=", "==", "!="]
WORDS = dict(zip(OPS, ["LT", "GT", "LE", "GE", "EQ", "NE"]))


def side(rng, ks, kinds, rows):
    """values for the keys, from the data when possible"""
    vals = []
    for c, m, _ in ks:
        r = rng.choice(rows) if rows and rng.random() < 0.8 else None
        if c is None:
            v = r[0] if r and len(r) == 1 else (r[0] if r else "m")
        elif r and c < len(r):
            v = r[c]
        else:
            v = rng.choice(["m", "5", "a"])
        if m in ("num", "numeric", "float"):
            v = M.nozero(v) if isinstance(v, str) and v else "5"
        try:
            v = v.encode("latin-1").decode("utf8")
        except UnicodeDecodeError:
            v = "k"
        v = re.sub("[<>=!,\x00\n\r]", "", v)
        if rng.random() < 0.2 and m not in ("num", "numeric", "float", "ip"):
            v = v[:-1] if rng.random() < 0.5 else v + "a"
        if not v or v == " " * len(v):
            v = {"num": "3", "numeric": "3", "float": "3", "ip": "1.2.3.4"}.get(m, "b")
        vals.append(v)
    return vals


def rng_spec(rng, ks, kinds, rows):
    bits = [[rng.choice(OPS), side(rng, ks, kinds, rows)]]
    # the word form with several keys is ambiguous (commas separate both), so two-sided ranges use it only for one key
    if rng.random() < 0.4:
        bits.append([rng.choice(OPS), side(rng, ks, kinds, rows)])
    if len(ks) == 1 and rng.random() < 0.4:
        if len(bits) == 1 and re.search(",(LT|GT|LE|GE|EQ|NE),", bits[0][1][0]):
            bits[0][1][0] = "b"
        t = ",".join("%s,%s" % (WORDS[o], ",".join(v)) for o, v in bits)
    else:
        t = "".join("%s%s" % (o, ",".join(v)) for o, v in bits)
    return t, bits


def range_ok(ks, bits, line):
    for op, vals in bits:
        r = 0
        for (c, m, rev), v in zip(ks, vals):
            a = M.method_key(m, line if c is None else M.col(line, c))
            b = M.method_key(m, v.encode("utf8"))
            if a != b:
                r = -1 if a < b else 1
                r = -r if rev else r
                break
        if not X.opok(op, r):
            return False
    return True


def numval(t):
    """value of a plain number, None for anything else"""
    return float(t) if re.fullmatch("-?[0-9]+([.][0-9]*)?", t) else None


def line_eval(m, l):
    if m["t"] != "expr":
        return X.line_eval(m, l)
    v = numval(M.col(l, m["c"]).decode("latin-1")) or 0.0
    return X.opok(m["op"], (v > m["v"]) - (v < m["v"]))


def gen(rng, idx, tier):
    nf = rng.choice([1, 1, 1, 1, 2, 3]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    kinds, nm = K.sortable(rng, tier)
    w = len(kinds)
    specs, ks = K.pick(rng, kinds, nm)
    if any(m == "float" for _, m, _ in ks):
        pass
    keys = K.mk(ks)
    if rng.random() < 0.15:
        specs, ks = [], [[None, "", False]]
        keys = K.mk(ks)
    files, order, tabs = {}, [], []
    mode = rng.choice(["none", "none", "sort", "unique"])
    allrows = []
    for i in range(nf):
        n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 20])
        if not nm:
            n = max(n, 1)
        rows = [[M.nozero(x) for x in r] for r in G.table(rng, w, n, kinds)]
        ls = ["\t".join(r).encode("latin-1") for r in rows]
        if mode != "none" and rng.random() < 0.9:
            ls = M.sort_lines(keys, ls)
            if mode == "unique" and rng.random() < 0.9:
                ls = M.uniq_sorted(keys, ls)
            if len(ls) > 1 and rng.random() < 0.3:
                a = rng.choice([0, len(ls) - 2, rng.randrange(len(ls) - 1)])
                ls[a], ls[a + 1] = ls[a + 1], ls[a]
        k = G.huge(rng, 0.0007)
        if k and ls and mode != "unique" and len(ls[0]) < 60:
            ls = [ls[0]] * k + ls
        if ls and rng.random() < 0.25:
            # a line with the wrong number of columns (never the first of a headerless file, which defines the number)
            a = rng.choice([len(ls) - 1, rng.randrange(len(ls))])
            if nm or a > 0:
                ls[a] = ls[a] + b"\tzz" if rng.random() < 0.5 or b"\t" not in ls[a] else ls[a].rsplit(b"\t", 1)[0]
        if not nm and ls and ls[0].startswith(b" CDX"):
            ls[0] = b"x" + ls[0]
        rows = [l.decode("latin-1").split("\t") for l in ls]
        tabs.append(rows)
        allrows += rows[-1000:]
        fn = "f%d" % i
        files[fn] = G.dump(nm, rows, final_nl=rng.random() < 0.8)
        order.append(fn)
    names = nm or ["c%d" % (i + 1) for i in range(w)]
    ascii_only = all(X.is_ascii(s2b(files[f])) for f in order)
    args, pats = ["verify"], []
    if rng.random() < 0.6:
        for j in range(rng.choice([1, 1, 2])):
            best = None
            for t in range(4):
                fs = {}
                s, m = X.line_matcher(rng, names, nm is not None, allrows, fs, ascii_only, "pat%d" % j)
                bad = sum(not line_eval(m, b"\t".join(s2b(x) for x in r)) for r in allrows)
                if best is None or abs(bad - 1) < best[0]:
                    best = (abs(bad - 1), s, m, fs)
                if bad <= 1:
                    break
            files.update(best[3])
            pats.append(best[2])
            args += [rng.choice(["-p", "--pattern"]), best[1]]
    nums = [i for i, k in enumerate(kinds) if k in ("num", "small")]
    if nums and rng.random() < 0.15:
        # an expression as a condition
        c = rng.choice(nums)
        vals = [numval(r[c]) for r in allrows if c < len(r)] or [0.0]
        if None not in vals:
            op = rng.choice(["<", "<=", ">", ">=", "==", "!="])
            v = rng.choice([min(vals), max(vals), rng.choice(vals)])
            pats.append({"t": "expr", "c": c, "op": op, "v": v})
            args += [rng.choice(["-p", "--pattern"]), ",expr,c%d%s%r" % (c + 1, op, v)]
    for s in specs:
        args += [rng.choice(["-k", "--key"]), s]
    if mode != "none":
        args.append({"sort": rng.choice(["-s", "--sort"]), "unique": rng.choice(["-u", "--unique"])}[mode])
    first = last = None
    if rng.random() < 0.3:
        t, first = rng_spec(rng, ks, kinds, [r[0] for r in tabs if r] if rng.random() < 0.8 else allrows)
        args += [rng.choice(["-f", "--first"]), t]
    if rng.random() < 0.3:
        t, last = rng_spec(rng, ks, kinds, [r[-1] for r in tabs if r] if rng.random() < 0.8 else allrows)
        args += [rng.choice(["-l", "--last"]), t]
    rep = None
    if rng.random() < 0.3:
        rep = rng.randint(1, 8)
        args += [rng.choice(["-r", "--report"]), str(rep)]
    return {"files": files, "args": args + order, "order": order, "header": nm, "w": w, "pats": pats, "ks": ks, "mode": mode,
            "first": first, "last": last, "report": rep}


def judge(ctx, case):
    keys = K.mk(case["ks"])
    limit = case["report"] or 5
    what, named, norder, nrange, seen = set(), [], 0, 0, 0
    for fn in case["order"]:
        ls = G.lines(s2b(case["files"][fn]))
        w = len(ls[0].split(b"\t")) if not case["header"] and ls else case["w"]
        if case["header"]:
            ls = ls[1:]
        if not ls:
            continue
        fails = 0
        stopped = False
        if case["first"] and not range_ok(case["ks"], case["first"], ls[0]):
            what.add("first")
            fails += 1
            nrange += 1
        for i, l in enumerate(ls):
            seen += 1
            bad = False
            if i and case["mode"] != "none" and not prevbad:
                c = M.compare(keys, ls[i - 1], l)
                if c > 0 or (c == 0 and case["mode"] == "unique"):
                    what.add("order%s" % ("-last" if i == len(ls) - 1 else ""))
                    norder += 1
                    fails += 1
                    if fails >= limit:
                        stopped = True
                        break
            elif i and prevbad and fails >= limit:
                stopped = True
                break
            if len(l.split(b"\t")) != w:
                bad = True
                named.append((fn, i + 1))
                what.add("width%s" % ("-last" if i == len(ls) - 1 else ""))
            for m in case["pats"]:
                if not line_eval(m, l):
                    named.append((fn, i + 1))
                    bad = True
                    what.add("pat%s" % ("-last" if i == len(ls) - 1 else ""))
            prevbad = bad
            if bad:
                fails += 1
        if not stopped and case["last"] and not range_ok(case["ks"], case["last"], ls[-1]):
            what.add("last")
            fails += 1
            nrange += 1
        if fails:
            break
    r = ctx.sane(ctx.run(case["args"]))
    ctx.count("lines_checked", seen)
    if r.rc not in (0, 1):
        raise Violation("unexpected exit status", run=r.brief())
    if r.out:
        raise Violation("verify wrote to standard output", run=r.brief())
    ok = not what
    if (r.rc == 0) != ok:
        raise Violation("verify %s a file that %s (%s)" % ("accepted" if r.rc == 0 else "rejected", "satisfies everything" if ok else "does not", sorted(what)), run=r.brief())
    ctx.count("accepted" if ok else "rejected")
    if ok:
        ctx.expect("accepted but complained", r.err, b"", r)
    else:
        got = [(f.decode(), int(n)) for n, f in re.findall(rb"[Ll]ine ([0-9]+) of (f[0-9]+)\b", r.err)]
        ctx.expect("verify names other lines than those that fail", got, named, r)
        ctx.expect("number of disorders reported", len(re.findall(rb"^Lines are ", r.err, re.M)), norder, r)
        ctx.expect("number of range failures reported", len(re.findall(rb"should have been [A-Z]{2} ", r.err)), nrange, r)
        ctx.count("lines_named", len(named))
    return "%s|%d|%s|%s%s|%s|%s" % (case["mode"], len(case["order"]), ",".join(sorted(p["t"] + (p["m"]["k"] if "m" in p else "") for p in case["pats"])),
                                    "F" if case["first"] else "", "L" if case["last"] else "", ",".join(sorted(what)), limit)
