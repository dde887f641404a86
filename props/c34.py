"""C34: a Reader shows every line once, with its columns, its place and the lines before it, whatever the format and the look-back."""
import gzip
import gen as G
from vf import HARNESS as EXE, Violation, b2s, s2b

ID = "C34"
HARNESS = "reader"
QUICK, THOROUGH = 20000, 300000
RULE = ("one case = 1-3 files (empty, header only, with and without header and final newline, compressed, with lines longer than the buffers) read by "
        "one Reader per file or one Reader opened again and again, with a look-back of 1-5 lines and a text format (header mode, delimiter, "
        "quoting); for every line the columns, text, number, byte offset and every reachable previous line are compared with the model; "
        "distinct = (format, look-back, reuse, shape of files)")
ASSUMPTIONS = ["lines end with a newline; quoted formats are generated by an independent encoder"]


def enc(rng, v, mode, d):
    """a cell's text in the file"""
    if mode == "b":
        out = ""
        for c in v:
            if c in (d, "\n", "\\"):
                out += "\\" + {"\t": "t", "\n": "n"}.get(c, c)
            elif c == "\t" and rng.random() < 0.5:
                out += "\\t"
            else:
                out += c
        return out
    if mode == "q":
        if d in v or "\n" in v or '"' in v or (rng.random() < 0.1 and v):
            return '"' + v.replace('"', '""') + '"'
        return v
    return "".join(" " if c in (d, "\n") else c for c in v)


def gen(rng, idx, tier):
    mode = rng.choice(["p", "p", "p", "q", "b"])
    d = rng.choice(["\t", "\t", ",", "|", ":"])
    hm = rng.choice(["m", "m", "m", "y", "n", "s"])
    fmt = hm + {"\t": "t"}.get(d, d) + mode
    look = rng.choice([1, 1, 1, 2, 3, 5])
    files, order, model = {}, [], []
    w = G.width(rng, 1, 5)
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        names = G.names(rng, w) if rng.random() < 0.85 else [chr(97 + j % 26) + str(j // 26 or "") for j in range(w)]
        n = rng.choice([0, 1, 2, 3, 5, 9, 30])
        rows = []
        for _ in range(n):
            r = [G.cell(rng, rng.choice(["text", "key", "num", "nasty"])) for _ in range(rng.choice([w, w, w, w, rng.randint(1, w), w + 1]))]
            if rng.random() < 0.2:
                r[rng.randrange(len(r))] = rng.choice(["a" + d + "b", 'q"q', "l1\nl2" if mode != "p" else "l1", "\\", "a\\b", '"', "x" * rng.choice([100, 8191, 8192, 20000]), "", "tab\there"])
            if rng.random() < 0.1:
                j = rng.randrange(len(r))
                r[j] = rng.choice([r[j] + "\r", "\r", "a\rb", "\r" + r[j]])
            r = [x if mode != "p" else x.replace("\n", "") for x in r]
            if r[0].startswith(" CDX"):
                r[0] = "x"
            rows.append(r)
        hdr = names if hm == "y" or rng.random() < 0.5 else None
        text, lines = "", []
        if hdr:
            text = (" CDX" + d if hm != "y" or rng.random() < 0.5 else "") + d.join(hdr) + "\n"
        off = len(text)
        head = hdr
        if hm == "n" and hdr:
            # the header is an ordinary line
            lines.append([0, text[:-1], text[:-1].split(d)])
            head = None
        if hm == "s":
            head = None
        for r in rows:
            cells = [enc(rng, x, mode, d) for x in r]
            if mode == "q" and r is rows[-1] and "\n" not in r[-1] and rng.random() < 0.15:
                # a quote that is never closed ends with the file
                cells[-1] = '"' + r[-1].replace('"', '""')
            t = d.join(cells)
            lines.append([off, t, cells if mode == "p" else r])
            off += len(t) + 1
            text += t + "\n"
        cut = rng.random() < 0.2 and rows and text.endswith("\n")
        if cut:
            text = text[:-1]
            if lines[-1][1] == "":
                # an empty line without its newline is no line
                lines.pop()
        data = text
        if rng.random() < 0.1 and text:
            data = b2s(gzip.compress(s2b(text), mtime=0))
        empty = text == "" or (hm == "s" and not lines)
        files["f%d" % i] = data
        order.append("f%d" % i)
        model.append({"empty": empty, "head": head, "lines": lines})
    return {"files": files, "args": ["reader", str(look), fmt, str(int(rng.random() < 0.5))], "order": order, "model": model, "look": look}


def rb(b):
    """Rust's debug form of a byte slice"""
    return "[" + ", ".join(str(c) for c in b) + "]"


def judge(ctx, case):
    want = []
    n = 0
    prev = []
    for f, m in zip(case["order"], case["model"]):
        ls = m["lines"]
        want.append("F %s %s %s" % (str(m["empty"]).lower(), str(not ls).lower(), str(m["head"] is not None).lower()))
        if m["head"] is not None:
            want.append("H [" + ", ".join('"%s"' % x for x in m["head"]) + "]")
        elif ls:
            want.append("H [" + ", ".join('"c%d"' % (i + 1) for i in range(len(ls[0][2]))) + "]")
        prev = []
        for i, (off, t, v) in enumerate(ls):
            n += 1
            b = s2b(t)
            want.append("L %d %d %d %s " % (i + 1, i + 1, off, f))
            want.append("C [" + ", ".join(rb(s2b(x)) for x in v) + "]")
            want.append("T " + rb(b))
            prev.insert(0, b + b"\n")
            for k in range(case["look"] + 1):
                want.append("P " + rb(prev[k] if k < len(prev) else b""))
    r = ctx.good(case["args"] + case["order"], exe=EXE)
    out = r.out
    if case["args"][2][0] == "s":
        # whether the offset counts a skipped header is not specified
        def place(b):
            return b"\n".join(b" ".join(l.split(b" ")[:3] + l.split(b" ")[4:]) if l.startswith(b"L ") else l for l in b.split(b"\n"))
        out = place(out)
        want = place("".join(x + "\n" for x in want).encode()).decode().split("\n")[:-1]
    ctx.expect("what the Reader showed", out, "".join(x + "\n" for x in want).encode(), r)
    ctx.count("lines_read", n)
    ctx.count("previous_lines_compared", n * case["look"])
    a = case["args"]
    return "%s|%s|%s|%s" % (a[2], a[1], a[3], [(m["empty"], m["head"] is not None, min(len(m["lines"]), 9)) for m in case["model"]])
