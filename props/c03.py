"""C03: the result of a sort does not depend on the memory it was given."""
import gen as G
import keys as K
import model as M
from vf import HARNESS as EXE, s2b

ID = "C03"
HARNESS = "spill"
QUICK, THOROUGH = 6000, 150000
RULE = ("one case = 1-3 files and keys sorted by the real sorter with a buffer of 64 bytes to 8 KB, forcing 0 to hundreds of "
        "spilled runs and merges, lines longer than the buffer, and data lines that look like headers or compressed data; output must equal "
        "the model's stable sort; non-trivial = the run spilled at least once; distinct = (methods, unique, header, "
        "log2(data/buffer), longest line over buffer?, header-like data?)")
ASSUMPTIONS = ["temporary directory is writable and no file starts with a gzip signature"]


def gen(rng, idx, tier):
    kinds, nm = K.sortable(rng, tier)
    specs, ks = K.pick(rng, kinds, nm)
    nf = rng.choice([1, 1, 2, 3])
    uniq = rng.random() < 0.35
    alloc = rng.choice([64, 100, 128, 200, 256, 400, 512, 1000, 2048, 8192, 30000])
    files = {}
    weird = rng.random() < 0.15
    for i in range(nf):
        n = rng.choice([0, 1, 3, 10, 20, 40, 80, 150])
        rows = G.table(rng, len(kinds), n, kinds, ragged=rng.choice([0, 0, 0.2]), close=rng.choice([0, 0.15, 0.5]))
        if rows and rng.random() < 0.3:
            rows = [rng.choice(rows) for _ in rows]
        if rows and rng.random() < 0.2:
            c = rng.randrange(len(kinds))
            k = rng.randrange(len(rows))
            if kinds[c] in ("text", "nasty") and c < len(rows[k]):
                rows[k][c] = G.word(rng, 1, 3) * rng.choice([50, 200, 1000, 9000, 9000, 60000, 200000])
        if weird and len(rows) > 1 and kinds[0] in ("text", "nasty", "key"):
            k = rng.randint(1, len(rows) - 1)
            if rng.random() < 0.5:
                # a run may well start with this one: it must not be taken for compressed data
                rows[k][0] = "\x1f\x8b\x08" + rng.choice(["", "\0", G.word(rng, 1, 9)])
            else:
                rows[k][0] = " CDX"
                if len(kinds) == 1:
                    rows[k].append("zork")
        if not nm and rows and rows[0][0].startswith((" CDX", "\x1f\x8b")):
            rows[0][0] = "x"
        files["f%d" % i] = G.dump(nm, rows, final_nl=rng.random() < 0.8)
    return {"files": files, "specs": specs, "keys": ks, "unique": uniq, "alloc": alloc, "header": nm, "weird": weird,
            "delim": bool(nm) and not weird and all(k[0] is not None for k in ks) and not any("," in x for x in files.values()) and rng.random() < 0.3}


def judge(ctx, case):
    names = sorted(case["files"])
    keys = K.mk(case["keys"])
    ls, hdr, total, longest = [], None, 0, 0
    for n in names:
        b = s2b(case["files"][n])
        total += len(b)
        v = G.lines(b)
        longest = max([longest] + [len(x) for x in v])
        if case["header"]:
            if v:
                hdr = v[0]
            v = v[1:]
        ls += v
    want = M.sort_lines(keys, ls)
    if case["unique"]:
        want = M.uniq_sorted(keys, want)
    if hdr is not None:
        want = [hdr] + want
    if case.get("delim"):
        # the same file with another delimiter, as announced by the header
        for n in names:
            ctx.write(n, case["files"][n].replace("\t", ","))
        want = [x.replace(b"\t", b",") for x in want]
        ctx.count("other_delimiter")
    r = ctx.good(["spill", str(case["alloc"]), "1" if case["unique"] else "0", str(len(case["specs"]))]
                 + case["specs"] + names, exe=EXE)
    ctx.expect("sorting with a small buffer differs from the model", G.lines(r.out), want, r)
    spilled = b"Merging" in r.err
    ctx.count("spilled_runs" if spilled else "in_memory_runs")
    ctx.count("lines_sorted", len(ls))
    if total <= case["alloc"] // 2:
        return None
    return "%s|%s|%s|%d|%s|%s" % (",".join("%s%s%s" % ("L" if k[0] is None else "c", k[1], "-" if k[2] else "") for k in case["keys"]),
                                  case["unique"], bool(hdr), (2 * total // case["alloc"]).bit_length(),
                                  longest > case["alloc"] // 2, case["weird"])
