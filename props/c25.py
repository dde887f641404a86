"""C25: text formats (delimiters, quoting, header modes) are read and written as specified."""
import c22
from vf import Violation, b2s, s2b

ID = "C25"
QUICK, THOROUGH = 9000, 180000
CAP = 40
RULE = ("one case = (a) a tool run on tab-delimited files and on the same files with another delimiter, whose outputs must agree after exchanging the two; (b) cut "
        "converting a table of arbitrary byte strings between two formats (delimiter, plain/quote/backslash, header mode), whose output must decode to the same values; "
        "the same command with another output format must write the same values in it; (c) a line-selecting tool on quoted or backslashed files, which must judge decoded values and copy lines unchanged; "
        "distinct = (kind, tool, delimiters, quoting, header modes)")
ASSUMPTIONS = ["lines end in newlines", "output options not given default to m, tab, plain, space as the existing tests require",
               "columns named in plain headers contain only letters and digits"]
DELIMS = list(",;:|%#=~!@^&/-.+?") + [" "]
LINEY = {"cut", "comp", "cgrep", "cat", "catnum", "paste", "sample", "samplen"}


# ------------------------------------------------------------ independent codec
def enc_quote(rng, v, d):
    must = any(c in (d, 10, 34) for c in v)
    if not must and rng.random() < 0.7:
        return v
    return b'"' + v.replace(b'"', b'""') + b'"'


def enc_back(rng, v, d):
    out = b""
    for c in v:
        if c == 92:
            out += b"\\\\"
        elif c == d:
            out += b"\\t" if d == 9 and rng.random() < 0.5 else b"\\" + bytes([c])
        elif c == 10:
            out += b"\\n"
        elif c == 9 and rng.random() < 0.5:
            out += b"\\t"
        elif c == 13 and rng.random() < 0.5:
            out += b"\\r"
        elif rng.random() < 0.03 and c not in b"nrt":
            out += b"\\" + bytes([c])
        else:
            out += bytes([c])
    return out


def dec(data, d, q):
    """decode a whole file into rows of values"""
    rows, row, cur, i, inq, start = [], [], b"", 0, False, True
    n = len(data)
    while i < n:
        c = data[i]
        i += 1
        if q == "b" and c == 92:
            e = data[i] if i < n else 92
            i += 1
            cur += {110: b"\n", 114: b"\r", 116: b"\t"}.get(e, bytes([e]))
            start = False
        elif q == "q" and c == 34:
            if (inq or not start) and i < n and data[i] == 34:
                cur += b'"'
                i += 1
            else:
                inq = not inq
            start = False
        elif c == 10 and not inq:
            row.append(cur)
            rows.append(row)
            row, cur, start = [], b"", True
        elif c == d and not inq:
            row.append(cur)
            cur, start = b"", True
        else:
            cur += bytes([c])
            start = False
    if row or cur:
        rows.append(row + [cur])
    return rows


def fmt(rng, heads):
    d = rng.choice(DELIMS + ["\t"] * 8)
    return {"h": rng.choice(heads), "d": d, "q": rng.choice("pqb"), "r": rng.choice(["_", "s" if d != " " else "_", "*", "x"])}


def spec(f):
    ch = lambda c: {"\t": "t", " ": "s"}.get(c, c)
    return f["h"] + ch(f["d"]) + f["q"] + f["r"]


def value(rng, f):
    d = f["d"]
    n = rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < 0.97 else rng.choice([15, 64, 100, 300])
    pool = ["a", "b", "cc", "1", "Z", "é".encode().decode("latin-1"), "\xff", " ", ",", ";", "'", "\r", "nn", "t"]
    if f["q"] != "p":
        pool += [d, d, "\n", '"', '"', "\\", "\t"]
    else:
        pool += ['"', "\\"]
        pool = [x for x in pool if x != d]
        if d != "\t":
            pool.append("\t")
    return "".join(rng.choice(pool) for _ in range(n))


def encode(rng, rows, f, names):
    d = ord(f["d"])
    out = b""
    if names:
        out += (b" CDX" + bytes([d]) if f["h"] in "msx" else b"") + bytes([d]).join(s2b(x) for x in names) + b"\n"
    for r in rows:
        vs = [s2b(v) for v in r]
        if f["q"] == "q":
            vs = [enc_quote(rng, v, d) for v in vs]
        elif f["q"] == "b":
            vs = [enc_back(rng, v, d) for v in vs]
        out += bytes([d]).join(vs) + b"\n"
    return b2s(out)


def table(rng, f, w):
    rows = []
    for _ in range(rng.choice([1, 2, 4, 8, 20])):
        r = [value(rng, f) for _ in range(w)]
        if rows and rng.random() < 0.3:
            r[0] = rows[-1][0]
        rows.append(r)
    return rows


def gen(rng, idx, tier):
    kind = rng.choice(["swap", "swap", "convert", "convert", "lines"])
    if kind == "swap":
        while True:
            c = c22.gen(rng, idx, tier)
            if not c["mis"]:
                break
        d = rng.choice(DELIMS)
        t = c["tool"]
        a = c["args"]
        pre = rng.choice("hp")
        if rng.random() < 0.25:
            # tools that build their lines column by column write the format asked for
            for _ in range(200):
                if c["tool"] in ("cut", "expr", "comp", "agg", "join") and not c["mis"]:
                    break
                c = c22.gen(rng, idx, tier)
            if c["tool"] in ("cut", "expr", "comp", "agg", "join"):
                a = c["args"]
                if rng.random() < 0.1:
                    a = ["wc", "--columns", "-l", "-b"]
                return {"kind": "out", "tool": c["tool"], "args": a, "files": c["files"], "n": ["%s%d" % (pre, i) for i in range(c["nf"])],
                        "d": rng.choice(DELIMS), "h": rng.choice("mmy") if c["nf"] == 1 else "m"}
        f1, f2 = {}, {}
        mix = t in LINEY and rng.random() < 0.6
        if d in c["emits"]:
            d = ";"
        if rng.random() < 0.15:
            t = rng.choice(["transpose", "wc", "verify", "loc"])
            a = {"transpose": rng.choice([["transpose"], ["transpose", "--head"]]), "wc": ["wc", "--columns", "-l", "-b"],
                 "verify": ["verify", "-p", "1,infix,b"], "loc": ["cgrep", "--location=line", "--location=bytes", "-p", "1,infix,b"]}[t]
        for i in range(c["nf"] if t not in ("transpose", "verify") else 1):
            s = c["files"]["%s%d" % (pre, i)]
            h, body = (s.split("\n", 1)[0] + "\n", s.split("\n", 1)[1]) if pre == "h" else ("", s)
            if mix:
                body = body.replace("z", d)
            elif d == " ":
                body = body.replace(" ", "")
            s = h + body
            f1["f%d" % i] = s
            f2["g%d" % i] = s.translate({9: d, ord(d): "\t"}) if d != " " else h.replace("\t", " ").replace(" CDX ", " CDX ", 1) + body.translate({9: " ", 32: "\t"})
        if pre == "p" and mix and t == "binsearch":
            mix = False
        return {"kind": kind, "tool": t, "args": a, "files": dict(f1, **f2), "n1": sorted(f1), "n2": sorted(f2), "d": d, "pre": pre, "mix": mix}
    if kind == "convert":
        fi = fmt(rng, "ymnsx")
        fo = fmt(rng, "ymnx") if rng.random() < 0.8 else None
        w = rng.randint(1, 5)
        rows = table(rng, fi, w)
        names = rng.sample(["a", "bb", "c3", "Dd", "e1", "ff"], w) if fi["h"] in "yx" or (fi["h"] in "ms" and rng.random() < 0.5) else None
        data = encode(rng, rows, fi, names)
        if not names and fi["h"] in "ms" and data.startswith(" CDX"):
            data = "x" + data
        return {"kind": kind, "fi": fi, "fo": fo, "rows": dec_rows(s2b(data), fi, bool(names)), "names": names, "files": {"f": data}, "w": w,
                "sel": rng.sample(range(w), rng.randint(1, w))}
    fi = fmt(rng, "mn")
    fi["q"] = rng.choice("qb")
    w = rng.randint(1, 3)
    rows = table(rng, fi, w)
    names = ["a", "bb", "c3"][:w] if fi["h"] == "m" and rng.random() < 0.5 else None
    data = encode(rng, rows, fi, names)
    if not names and data.startswith(" CDX"):
        data = "x" + data
    rows = dec_rows(s2b(data), fi, bool(names))
    t = rng.choice(["cgrep", "uniq", "uniqlast", "uniqc", "sample", "catn", "whole"])
    if t == "cgrep":
        v = rng.choice(rng.choice(rows))
        try:
            s2b(v).decode("utf8")
        except UnicodeDecodeError:
            v = "a"
        if "\0" in v or "," in v:
            v = "a"
        pat = v
    else:
        pat = None
    return {"kind": kind, "tool": t, "fi": fi, "rows": rows, "names": names, "files": {"f": data}, "w": w, "pat": pat, "k": rng.randint(1, 3)}


def dec_rows(data, f, hdr):
    d = ord(f["d"])
    rows = dec(data, d, f["q"])
    return [[b2s(v) for v in r] for r in (rows[1:] if hdr else rows)]


def raw_lines(data, q):
    """the raw text of every record"""
    out, cur, inq = [], b"", False
    for c in data:
        cur += bytes([c])
        if q == "q" and c == 34:
            inq = not inq
        if c == 10 and not inq:
            out.append(cur)
            cur = b""
    if cur:
        out.append(cur)
    return out


def judge(ctx, case):
    k = case["kind"]
    if k == "swap":
        d = s2b(case["d"])
        un = any("un1" in x for x in case["args"])
        r1 = ctx.sane(ctx.run(case["args"] + case["n1"]))
        u1 = ctx.read("un1") if un else b""
        r2 = ctx.sane(ctx.run(case["args"] + ["--text-in=m" + ("s" if d == b" " else case["d"])] + case["n2"]))
        u2 = ctx.read("un1") if un else b""
        if r1.rc != r2.rc:
            raise Violation("exit status depends on the delimiter", tab=r1.brief(), other=r2.brief())

        def sw(o):
            ls = o.split(b"\n")
            if d == b" ":
                for i, l in enumerate(ls):
                    ls[i] = b" CDX" + l[4:].translate(bytes.maketrans(b"\t ", b" \t")) if l.startswith(b" CDX\t") else l.translate(bytes.maketrans(b"\t ", b" \t"))
                return b"\n".join(ls)
            return o.translate(bytes.maketrans(b"\t" + d, d + b"\t"))
        if case["tool"] == "wc" or case["tool"] == "verify":
            r1.out = r1.out.replace(b"f0", b"g0").replace(b"f1", b"g1").replace(b"f2", b"g2")
        ctx.expect("output depends on the delimiter", r2.out, sw(r1.out), r2, tab=r1.brief())
        ctx.expect("unmatched lines depend on the delimiter", u2, sw(u1), r2)
        ctx.count("delimiter_pairs")
        return "swap|%s|%s|%s|%s" % (case["tool"], case["d"], case["pre"], case["mix"])
    if k == "out":
        d = s2b(case["d"])
        r1 = ctx.sane(ctx.run(case["args"] + case["n"]))
        if r1.rc or d in r1.out.replace(b" CDX\t", b"\t"):
            return None
        r2 = ctx.good(case["args"] + ["--text-out=" + case["h"] + ("s" if d == b" " else case["d"])] + case["n"])
        want = r1.out.replace(b"\t", d)
        if case["h"] == "y" and r1.out.startswith(b" CDX\t"):
            want = want[5:]
        ctx.expect("output in another format differs in more than the format", r2.out, want, r2)
        ctx.count("output_formats")
        return "out|%s|%s|%s|%s" % (case["tool"], case["d"], case["h"], case["n"][0][0])
    fi = case["fi"]
    data = s2b(case["files"]["f"])
    if k == "convert":
        fo = case["fo"]
        a = ["cut", "--text-in=" + spec(fi), "-f", ",".join(str(x + 1) for x in case["sel"])]
        if fo:
            a.append("--text-out=" + spec(fo))
        else:
            fo = fi
        r = ctx.good(a + ["f"])
        hdr = case["names"] if fi["h"] != "s" else None
        out = r.out
        if hdr:
            want = (b" CDX" + s2b(fo["d"]) if fo["h"] in "mx" else b"") + s2b(fo["d"]).join(s2b(hdr[x]) for x in case["sel"]) + b"\n"
            ctx.expect("header", out[:len(want)], want, r)
            out = out[len(want):]
        vals = [[s2b(row[x]) if x < len(row) else b"" for x in case["sel"]] for row in case["rows"]]
        if fo["q"] == "p":
            rp = s2b({"s": " "}.get(fo["r"], fo["r"]))
            vals = [[v.replace(s2b(fo["d"]), rp).replace(b"\n", rp) for v in row] for row in vals]
        got = dec(out, ord(fo["d"]), fo["q"])
        ctx.expect("values read back differ", got, vals, r, raw=b2s(r.out[:1500]))
        ctx.count("values_converted", len(vals) * len(case["sel"]))
        return "convert|%s%s%s|%s%s%s|%s" % (fi["h"], fi["d"], fi["q"], fo["h"], fo["d"], fo["q"], bool(hdr))
    t = case["tool"]
    raws = raw_lines(data, fi["q"])
    head = b""
    if case["names"]:
        head, raws = raws[0], raws[1:]
    rows = case["rows"]
    ti = "--text-in=" + spec(fi)
    d = s2b(fi["d"])
    if len(raws) != len(rows):
        return None
    col = lambda row, i: row[i] if i < len(row) else ""
    if t == "cgrep":
        r = ctx.good(["cgrep", ti, "-p", b"1,exact," + s2b(case["pat"]), "f"])
        want = head + b"".join(x for x, row in zip(raws, rows) if col(row, 0) == case["pat"])
    elif t in ("uniq", "uniqlast", "uniqc"):
        groups = []
        for x, row in zip(raws, rows):
            if groups and groups[-1][0] == col(row, 0):
                groups[-1][1].append(x)
            else:
                groups.append((col(row, 0), [x]))
        if t == "uniq":
            a, want = [], b"".join(g[1][0] for g in groups)
        elif t == "uniqlast":
            a, want = ["-w", "last"], b"".join(g[1][-1] for g in groups)
        else:
            a, want = ["-c", "n"], b"".join(b"%d" % len(g[1]) + d + g[1][0] for g in groups)
            if head:
                head = b" CDX" + d + b"n" + head[4:]
        r = ctx.good(["uniq", ti, "-k", "1"] + a + ["f"])
        want = head + want
    elif t == "sample":
        r = ctx.good(["sample", ti, "--for=%d" % case["k"], "f"])
        want = head + b"".join(raws[::case["k"]])
    elif t == "catn":
        r = ctx.good(["cat", ti, "--number=n,0,begin", "f"])
        if head:
            head = b" CDX" + d + b"n" + head[4:]
        want = head + b"".join(b"%d" % i + d + x for i, x in enumerate(raws))
    else:
        r = ctx.good(["cgrep", ti, "-p", "1,length,0,100000", "f"])
        want = head + b"".join(raws)
    ctx.expect("%s in a %s file" % (t, {"q": "quoted", "b": "backslashed"}[fi["q"]]), r.out, want, r)
    ctx.count("lines_copied", len(raws))
    return "lines|%s|%s%s|%s" % (t, fi["d"], fi["q"], bool(case["names"]))
