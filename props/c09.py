"""C09: join pairs exactly the matching lines; unmatched lines go to their own outputs."""
import functools

import gen as G
import model as M
from vf import Violation, s2b

ID = "C09"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = two files sorted by 1-4 keys (per-file columns, plain/lower/num/float/len/ip, reversed or not), the second "
        "without repeated keys, one `cdx join` with default or explicit output columns and any of --also 1/2 and --file; every "
        "output file is compared with the model and conservation (each input line used or reported) follows from it; "
        "non-trivial = at least one match and one non-match; distinct = (keys, options, header?, repeated left key?)")
ASSUMPTIONS = ["as documented, both files are sorted by the keys and the second has no repeated keys"]


def keyvals(ks, side, row):
    out = []
    for c0, c1, m, rev in ks:
        c = c0 if side == 0 else c1
        out.append(M.method_key(m, s2b(row[c]) if c < len(row) else b""))
    return out


def cmpk(ks, a, b):
    for (c0, c1, m, rev), x, y in zip(ks, a, b):
        if x != y:
            r = -1 if x < y else 1
            return -r if rev else r
    return 0


def gen(rng, idx, tier):
    nk = rng.choice([1, 1, 1, 2, 2, 3, 3, 4]) if rng.random() < 0.5 else 1
    nc = [G.width(rng, max(1, nk), 4), G.width(rng, max(1, nk), 4)]
    mk = []
    for _ in range(nk):
        mk.append(rng.choice([("key", ""), ("key", ""), ("text", ""), ("key", "lower"), ("num", "num"), ("num", "float"), ("ip", "ip"),
                              ("text", "len"), ("small", ""), ("nasty", ""), ("bignum", "num"), ("float", "float")]))
    pos = [rng.sample(range(nc[0]), nk), rng.sample(range(nc[1]), nk)]
    if rng.random() < 0.4:
        pos = [list(range(nk)), list(range(nk))]
    hdr = rng.random() < 0.6
    nm = G.names(rng, max(10, sum(nc)))
    names = [nm[:nc[0]], nm[nc[0]:nc[0] + nc[1]]]
    if rng.random() < 0.3:  # same key name in both files
        for a, b in zip(*pos):
            names[1][b] = names[0][a]
    ks, specs = [], []
    for i in range(nk):
        kind, m = mk[i]
        rev = rng.random() < 0.2
        a, b = pos[0][i], pos[1][i]
        na = names[0][a] if hdr and rng.random() < 0.6 else str(a + 1)
        nb = names[1][b] if hdr and rng.random() < 0.6 else str(b + 1)
        s = na if na == nb else na + "." + nb
        mod = m + (".rev" if rev and m else "rev" if rev else "")
        specs.append(s + ("," + mod if mod else ""))
        ks.append([a, b, m, rev])
    pool = [[G.cell(rng, k) for k, _ in mk] for _ in range(rng.randint(1, 12))]
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 8)):
            k = list(rng.choice(pool))
            i = rng.randrange(nk)
            k[i] = G.near(rng, k[i], mk[i][0]).replace("\t", "_").replace("\n", "_")
            pool.append(k)
    tabs = []
    for side in (0, 1):
        rows = []
        n = (rng.choice([0, 1, 2, 5, 9, 20]) if hdr else rng.choice([1, 2, 5, 9, 20])) if rng.random() < 0.98 else rng.choice([100, 500, 1100, 1500])
        for _ in range(n):
            r = G.table(rng, nc[side], 1)[0]
            k = [G.cell(rng, kk) if q else str(rng.randint(0, 10 ** 6)) for q, (kk, _) in enumerate(mk)] if n > 99 and mk[0][0] in ("text", "num", "key") and rng.random() < 0.9 else rng.choice(pool) if rng.random() < 0.8 else [G.cell(rng, kk) for kk, _ in mk]
            for i in range(nk):
                r[pos[side][i]] = k[i]
            if hdr and rng.random() < 0.06:
                r = r[:rng.randint(1, nc[side])]
            if r[0].startswith(" CDX"):
                continue
            rows.append(r)
        rows.sort(key=functools.cmp_to_key(lambda x, y: cmpk(ks, keyvals(ks, side, x), keyvals(ks, side, y))))
        if side == 1:
            u = []
            for r in rows:
                if not u or cmpk(ks, keyvals(ks, 1, u[-1]), keyvals(ks, 1, r)) != 0:
                    u.append(r)
            rows = u
        if not hdr and not rows:
            rows = [["k"] * nc[side]]
        tabs.append(rows)
    args = ["join"]
    if specs == ["1"] and rng.random() < 0.5:
        pass
    else:
        for s in specs:
            args += ["-k", s]
    out = None
    if rng.random() < 0.4:
        out, pieces = [], []
        last = None
        for _ in range(rng.randint(1, 4)):
            f = rng.randrange(2)
            c = rng.randrange(nc[f])
            e = c
            t = names[f][c] if hdr and rng.random() < 0.5 else str(c + 1)
            if rng.random() < 0.3:
                e = rng.randrange(c, nc[f])
                t += "-" + (names[f][e] if hdr and rng.random() < 0.5 else str(e + 1))
            if f != last or rng.random() < 0.5:
                t = "%d.%s" % (f + 1, t)
            pieces.append(t)
            out += [[f, x] for x in range(c, e + 1)]
            last = f
        args += ["-o", ",".join(pieces)]
    files = {"a": G.dump(names[0] if hdr else None, tabs[0], final_nl=rng.random() < 0.85),
             "b": G.dump(names[1] if hdr else None, tabs[1], final_nl=rng.random() < 0.85)}
    none = out is None and all(a.lstrip("+").isdigit() for x in specs for a in x.split(",")[0].split(".")) and not any("+" in x for x in specs) and rng.random() < 0.06
    if none:
        # the second file has no bytes at all, and so neither header nor lines
        files["b"] = ""
    outs = {}
    for side in rng.sample((1, 2), 2):
        if rng.random() < 0.5:
            outs[str(side)] = "u%d" % side
            args += [rng.choice(["-a", "--also"]), "%d,u%d" % (side, side)]
    if rng.random() < 0.2:
        outs["m"] = "mm"
        args += ["-f", "mm"]
    for o in outs.values():
        if rng.random() < 0.2:
            files[o] = "stale contents\n" * 40
    stdin = None
    nmz = ["a", "b"]
    if rng.random() < 0.1:
        i = rng.randrange(2)
        stdin = files.pop(nmz[i])
        nmz[i] = "-"
    return {"files": files, "stdin": stdin, "args": args + nmz, "in": nmz, "keys": ks, "out": out, "outs": outs,
            "header": hdr, "nc": nc, "names": names, "none": none}


def judge(ctx, case):
    r = ctx.good(case["args"], case["stdin"] or b"")
    ks = case["keys"]
    raw, hd = [], []
    for side in (0, 1):
        n = case["in"][side]
        ls = G.lines(s2b(case["files"][n] if n != "-" else case["stdin"]))
        if side == 1 and case.get("none"):
            hd.append(b" CDX" if case["header"] else None)
        else:
            hd.append(ls.pop(0) if case["header"] else None)
        raw.append(ls)
    kv = [[keyvals(ks, s, [x.decode("latin-1") for x in l.split(b"\t")]) for l in raw[s]] for s in (0, 1)]
    for s in (0, 1):
        for i in range(1, len(kv[s])):
            c = cmpk(ks, kv[s][i - 1], kv[s][i])
            assert c < 0 or (s == 0 and c == 0), "generator produced unsorted input"
    width = []
    for s in (0, 1):
        width.append(len(hd[s].split(b"\t")) - 1 if case["header"] else len(raw[s][0].split(b"\t")) if raw[s] else 0)
    if case["out"] is None:
        cols = [(0, i) for i in range(width[0])] + [(1, i) for i in range(width[1]) if i not in [k[1] for k in ks]]
    else:
        cols = case["out"]
    main, u = [], [[], []]
    if case["header"]:
        main.append(b"\t".join([b" CDX"] + [hd[f].split(b"\t")[c + 1] for f, c in cols]))
        u = [[hd[0]], [hd[1]] if not case.get("none") else []]
    used = set()
    matches = 0
    for i, l in enumerate(raw[0]):
        hit = None
        for j, k in enumerate(kv[1]):
            if cmpk(ks, kv[0][i], k) == 0:
                hit = j
                break
        if hit is None:
            u[0].append(l)
        else:
            used.add(hit)
            matches += 1
            main.append(b"\t".join(M.col([l, raw[1][hit]][f], c) for f, c in cols))
    for j, l in enumerate(raw[1]):
        if j not in used:
            u[1].append(l)
    ctx.count("matches", matches)
    ctx.count("unmatched", len(raw[0]) - matches + len(raw[1]) - len(used))
    got = {"m": r.out}
    if "m" in case["outs"]:
        if r.out:
            raise Violation("output on stdout although it was sent to a file", run=r.brief())
        got["m"] = ctx.read(case["outs"]["m"])
    wants = {"m": main, "1": u[0], "2": u[1]}
    for k in ["m", "1", "2"]:
        if k != "m":
            if k not in case["outs"]:
                continue
            got[k] = ctx.read(case["outs"][k])
        ctx.expect("join %s differs from the model" % {"m": "output", "1": "unmatched lines of file 1", "2": "unmatched lines of file 2"}[k],
                   got[k], b"".join(x + b"\n" for x in wants[k]), r)
    if case.get("none"):
        return "none|%s|%s" % (case["header"], sorted(case["outs"]))
    if not matches or matches == len(raw[0]) == len(raw[1]):
        return None
    return "%s|%s|%s|%s|%s" % (["%s%s" % (k[2], "-" if k[3] else "") for k in ks], sorted(case["outs"]), case["out"] and len(case["out"]),
                               case["header"], matches > len(used))
