"""C28: tabs shows the start of each file, aligned, within the screen."""
import gen as G
import shim
from vf import Violation, s2b

ID = "C28"
QUICK, THOROUGH = 8000, 160000
RULE = ("one case = 1-20 files (header or not, ragged, wide and multi-byte characters, empty) shown by `cdx tabs` on a screen of given size (window-size ioctl interposed, "
        "0x0 to 60x250, or no terminal); whole output compared with a model: first lines of each file in order, columns aligned, whole cells when they fit, else the widest columns "
        "cut at character boundaries; no line wider than the screen when at least one column per cell fits; distinct = (files, fits?, screen class, header, ragged)")
ASSUMPTIONS = ["characters are printable and one or two columns wide"]
WIDE = "\u6f22\u5b57\u8a9e\uff21"


def prepare(tier):
    shim.build()


def cell(rng):
    r = rng.random()
    if r < 0.15:
        return ""
    if r < 0.5:
        return G.word(rng, 1, 6)
    if r < 0.65:
        return G.word(rng, 5, 40)
    if r < 0.7:
        return G.word(rng, 60, 300)
    return "".join(rng.choice("ab c\u00e9\u00df\u03b1" + WIDE + "Z.-") for _ in range(rng.randint(1, 12)))


def gen(rng, idx, tier):
    nf = rng.choice([1, 1, 1, 1, 2, 3, 5, rng.randint(6, 20)])
    files, order, hdrs = {}, [], []
    for i in range(nf):
        w = rng.choice([1, 2, 3, 3, 5, 8, 20, rng.randint(30, 130)])
        h = rng.random() < 0.5
        n = rng.choice([0, 1, 2, 3, 6, 12, 30, 70])
        rag = rng.random() < 0.4
        rows = []
        for _ in range(n):
            k = w + rng.choice([0, 0, -1, 1, 3]) if rag else w
            rows.append([cell(rng) for _ in range(max(1, k))])
        s = ""
        if h:
            s += " CDX\t" + "\t".join(G.names(rng, w) if w < 9 else ["n%d" % j for j in range(w)]) + "\n"
        elif rows and rows[0][0].startswith(" CDX"):
            rows[0][0] = "x"
        s += "".join("\t".join(r) + "\n" for r in rows)
        if rng.random() < 0.2 and s and rows and rows[-1] != [""]:
            s = s[:-1]
        fn = "f%d" % i
        files[fn] = s.encode("utf8").decode("latin-1")
        order.append(fn)
        hdrs.append(h)
    screen = rng.choice([None, [24, 80], [rng.randint(0, 60), rng.randint(0, 250)], [rng.randint(0, 10), rng.randint(0, 30)], [50, 200], [0, 0]])
    return {"files": files, "order": order, "hdrs": hdrs, "screen": screen}


def cw(ch):
    return 2 if ch in WIDE else 1


def width(s):
    return sum(map(cw, s))


def cut(s, n):
    out, k = "", 0
    for ch in s:
        if k + cw(ch) > n:
            break
        out += ch
        k += cw(ch)
    return out, k


def shrink(sizes, target):
    """widest columns first, leftmost of equals first"""
    sizes = list(sizes)
    total = sum(sizes)
    while total > target:
        m = max(sizes)
        sizes[sizes.index(m)] -= 1
        total -= 1
    return sizes


def show(data, hdr, wid, height):
    text = s2b(data).decode("utf8")
    if not text:
        return [], 0, False
    ls = text[:-1].split("\n") if text.endswith("\n") else text.split("\n")
    rows = [l.split("\t") for l in ls]
    if hdr:
        rows = [rows[0][1:]] + rows[1:][:max(0, height - 1)]
        n0 = len(rows[0])
    else:
        n0 = len(rows[0])
        rows = rows[:height]
    n = max([n0] + [len(r) for r in rows])
    sizes = [max([width(r[i]) for r in rows if i < len(r)] or [0]) for i in range(n)]
    full = sum(sizes)
    sizes = shrink(sizes, max(0, wid - n))
    out = []
    for k, r in enumerate(rows):
        cells = []
        for i, v in enumerate(r):
            t, x = cut(v, sizes[i])
            pad = sizes[i] - x
            left = pad // 2 if hdr and k == 0 else 0
            cells.append(" " * left + t + " " * (pad - left))
        out.append(" ".join(cells))
    return out, sum(sizes) + n, full > sum(sizes)


def judge(ctx, case):
    rows, wid = case["screen"] or [25, 100]
    height = max(0, rows - 1)
    want, cutany = [], False
    order = case["order"]
    if len(order) == 1:
        want, _, cutany = show(case["files"][order[0]], case["hdrs"][0], wid, height)
    else:
        left = max(0, height + 1 - 2 * len(order))
        for i, fn in enumerate(order):
            todo = len(order) - i
            v, real, c = show(case["files"][fn], case["hdrs"][i], wid, left // todo)
            cutany |= c
            if len(fn) <= real:
                a = (real - len(fn)) // 2
                want.append(" " * a + fn + " " * (real - len(fn) - a))
            want += v
            left = max(0, left - len(v))
            if todo > 1:
                want.append("-" * real)
    e = shim.env(ctx, screen="%d,%d" % tuple(case["screen"])) if case["screen"] else None
    r = ctx.good(["tabs"] + order, env=e)
    if case["screen"]:
        ctx.expect("the screen size was not asked for", "I" in shim.mark(ctx), True, r)
    got = r.out.decode("utf8", "replace")
    ctx.expect("display differs", got, "".join(x + "\n" for x in want), r)
    ctx.count("lines_compared", len(want))
    if max([len(l.split("\t")) for f in order for l in s2b(case["files"][f]).decode("utf8").split("\n")] or [0]) <= wid:
        for l in got.split("\n"):
            if width(l) > wid:
                raise Violation("a line is wider than the screen", line=l, run=r.brief())
    if not want:
        return None
    return "%d|%s|%s|%s|%d" % (min(len(order), 6), cutany, case["screen"] and [min(case["screen"][0] // 5, 5), min(case["screen"][1] // 20, 6)], case["hdrs"][:3], min(len(want) // 8, 6))
