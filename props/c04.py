"""C04: merging sorted files equals sorting their concatenation; both merge algorithms agree."""
import gen as G
import keys as K
import model as M
from vf import s2b

ID = "C04"
QUICK, THOROUGH = 7000, 150000
RULE = ("one case = 1-6 files already sorted by 1-3 random keys, merged with `sort -m` (default and --alt-merge, with and "
        "without --unique); output must equal the model's stable merge and the real `cdx sort` of the same files; "
        "non-trivial = at least two files with data; distinct = (methods, #files, unique, header, ties across files)")
ASSUMPTIONS = ["input files are sorted by the same keys"]


def gen(rng, idx, tier):
    kinds, nm = K.sortable(rng, tier)
    specs, ks = K.pick(rng, kinds, nm)
    keys = K.mk(ks)
    nf = rng.choice([1, 2, 2, 3, 3, 4, 6]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    files = {}
    for i in range(nf):
        rows = G.table(rng, len(kinds), rng.choice([0, 1, 2, 3, 5, 8, 20]), kinds, ragged=rng.choice([0, 0, 0.2]), close=rng.choice([0, 0.15, 0.5]))
        if i and rng.random() < 0.6:
            rows += [r for r in base if rng.random() < 0.4]
        base = rows
        ls = M.sort_lines(keys, ["\t".join(r).encode("latin-1") for r in rows])
        body = b"".join(x + b"\n" for x in ls).decode("latin-1")
        if rng.random() < 0.2 and body.endswith("\n") and ls and ls[-1] != b"":
            body = body[:-1]
        head = " CDX\t" + "\t".join(nm) + "\n" if nm else ""
        if not body and rng.random() < 0.3:
            head = ""      # a zero byte file
        files["f%d" % i] = head + body
    uniq = rng.random() < 0.4
    kargs = []
    for s in specs:
        kargs += ["-k", s]
    return {"files": files, "kargs": kargs, "keys": ks, "unique": uniq, "header": nm}


def judge(ctx, case):
    names = sorted(case["files"])
    keys = K.mk(case["keys"])
    ls, hdr = [], None
    nonempty = 0
    per = []
    for n in names:
        v = G.lines(s2b(case["files"][n]))
        if case["header"]:
            if v:
                hdr = v[0]
            v = v[1:]
        if v:
            nonempty += 1
        per.append(v)
        ls += v
    want = M.sort_lines(keys, ls)
    if case["unique"]:
        want = M.uniq_sorted(keys, want)
    if hdr is not None:
        want = [hdr] + want
    u = ["-u"] if case["unique"] else []
    for alt in ([], ["-A"], ["--alt-merge"]):
        r = ctx.good(["sort", "-m"] + alt + u + case["kargs"] + names)
        ctx.expect("merged output differs from the stable merge of the inputs", G.lines(r.out), want, r)
        ctx.count("lines_merged", len(ls))
        if alt == ["-A"]:
            break
    r = ctx.good(["sort"] + u + case["kargs"] + names)
    ctx.expect("merge and sort disagree", G.lines(r.out), want, r)
    if nonempty < 2:
        return None
    ties = False
    a = set(per[0])
    for v in per[1:]:
        ties = ties or bool(a & set(v))
    return "%s|%d|%s|%s|%s" % (",".join("%s%s%s" % ("L" if k[0] is None else "c", k[1], "-" if k[2] else "") for k in case["keys"]),
                               nonempty, case["unique"], bool(hdr), ties)
