"""C13: cat writes every line of every file once, in order, with one header; numbering and removal touch only what they say."""
import gen as G
import matchers as X
import model as M
from vf import s2b

ID = "C13"
QUICK, THOROUGH = 9000, 200000
RULE = ("one case = 1-4 files (same header, no header, or clashing headers; some empty, some header-only, some lacking the final "
        "newline, some larger than the copy buffer), a pad mode, or line numbering (name, start, place), lines to remove and "
        "lines not to number given by matchers; output compared byte for byte with the model; clashing headers must be refused; "
        "distinct = (file shapes, options, outcome)")
ASSUMPTIONS = ["a file named on the command line is readable; regular expressions come from a fixed pool"]


def gen(rng, idx, tier):
    nf = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.98 else G.width(rng, 5, 9, 0.5)
    hdr = rng.random() < 0.6
    clash = rng.random() < 0.08 and nf > 1
    w = G.width(rng, 1, 4)
    names = G.names(rng, w)
    asc = rng.random() < 0.7
    files, order, allrows, info = {}, [], [], []
    big = rng.random() < 0.04
    huge = G.huge(rng)
    blk = not big and rng.random() < 0.08
    for i in range(nf):
        h = hdr
        nm = names
        if clash and i and rng.random() < 0.5:
            if rng.random() < 0.5:
                h = not hdr
            else:
                nm = G.names(rng, w)
        n = rng.choice([0, 1, 2, 5, 9])
        rows = G.table(rng, w, n, ragged=0.1)
        if asc:
            rows = [["".join(c for c in x if 31 < ord(c) < 127) for x in r] for r in rows]
        if big:
            rows += [["%d" % k, "y" * rng.choice([10, 100, 5000])] for k in range(rng.randint(100, 900))]
            rng.shuffle(rows)
        if huge and not i:
            rows += [["%d" % k] for k in range(huge)]
        rows = [r if not r[0].startswith(" CDX") else ["x"] for r in rows]
        rows = [r if M.nozero("\t".join(r)) == "\t".join(r) else ["x"] + r[1:] for r in rows]
        allrows += rows[:30]
        d = G.dump(nm if h else None, rows)
        if d.endswith("\n") and rng.random() < 0.3 and not (h and not rows):
            d = d[:-1]
        if blk and rows:
            # exact multiples of the buffer sizes, with and without a final newline
            size = rng.choice([8192, 16384, 24576, 32768, 40960, 49152]) + rng.choice([0, 0, 0, 4, 4, 4, -1, 1, 3, 5])
            e = "\n" if rng.random() < 0.4 else ""
            if size > len(d) + 3:
                d = d if d.endswith("\n") else d + "\n"
                d += "z" * (size - len(d) - len(e)) + e
        files["f%d" % i] = d
        order.append("f%d" % i)
        info.append([d == "", nm if h else None])
    args = ["cat"]
    num, rem, skip, pad = None, [], [], "yes"
    if rng.random() < 0.4:
        pad = rng.choice(["yes", "no", "end", "Yes", "END", None])
        if pad:
            args += [rng.choice(["-p", "--pad"]), pad]
        pad = (pad or "yes").lower()
        slow = False
    else:
        slow = True
        k = rng.random()
        if k < 0.2:
            args.append(rng.choice(["-b", "--begin"]))
            num = ["number", 1, False]
        elif k < 0.4:
            args.append(rng.choice(["-e", "--end"]))
            num = ["number", 1, True]
        elif k < 0.8:
            num = [rng.choice(["Num", "n1", "idx"]) if not hdr or clash or rng.random() < 0.97 else rng.choice(names), rng.choice([0, 1, -2, 10, 99, 1000000]), rng.random() < 0.5]
            s = "%s,%d,%s" % (num[0], num[1], "end" if num[2] else "begin")
            if not num[2] and rng.random() < 0.3:
                s = "%s,%d" % (num[0], num[1])
                if rng.random() < 0.4:
                    s = num[0]
                    num[1] = 0
            args.append("--number=" + s)
        vals = [v for v in ("\t".join(x) for x in allrows) if len(v) < 60] or ["a"]
        for lst, opt in ((rem, "--remove="), (skip, "--skip=")):
            for q in range(rng.choice([0, 0, 1, 1, 2])):
                text, pat, m = X.make(rng, [v.replace("\t", "a") for v in vals], files, asc, "%s%d" % (opt[2:5], q))
                args.append(opt + text + ("," + pat if pat or rng.random() < 0.5 else ""))
                lst.append(m)
        if num is None and not rem and not skip:
            args.append("-b")
            num = ["number", 1, False]
    return {"files": files, "args": args, "order": order, "info": info, "num": num, "rem": rem, "skip": skip, "pad": pad, "slow": slow}


def judge(ctx, case):
    heads = [h for e, h in case["info"] if not e]
    sig = "%s|%s|%s|%d|%d|%s" % ([e for e, _ in case["info"]], case["num"], case["pad"], len(case["rem"]), len(case["skip"]), case["slow"])
    if any(h != heads[0] for h in heads):
        ctx.bad(case["args"] + case["order"])
        ctx.count("clashing_headers_refused")
        return sig + "|refused"
    want = []
    if case["num"] and heads and heads[0] and case["num"][0] in heads[0]:
        ctx.bad(case["args"] + case["order"])
        ctx.count("clashing_names_refused")
        return sig + "|name"
    r = ctx.good(case["args"] + case["order"])
    if not case["slow"]:
        nohead = True
        for fn, (e, h) in zip(case["order"], case["info"]):
            d = s2b(case["files"][fn])
            if h and not nohead:
                d = d[d.index(b"\n") + 1:]
            elif h:
                nohead = False
            want.append(d)
            sofar = b"".join(want)
            want = [sofar]
            if case["pad"] == "yes" and sofar and not sofar.endswith(b"\n"):
                want.append(b"\n")
        out = b"".join(want)
        if case["pad"] == "end" and out and not out.endswith(b"\n"):
            out += b"\n"
        ctx.expect("concatenation differs from the model", r.out, out, r)
        ctx.count("bytes_concatenated", len(out))
        return sig if out else None
    num = case["num"]
    n = num[1] if num else 0
    first = True
    removed = skipped = 0
    for fn, (e, h) in zip(case["order"], case["info"]):
        ls = G.lines(s2b(case["files"][fn]))
        if h:
            l = ls.pop(0).split(b"\t")[1:]
            if first:
                if num:
                    l = l + [s2b(num[0])] if num[2] else [s2b(num[0])] + l
                want.append(b"\t".join([b" CDX"] + l))
            first = False
        for l in ls:
            if any(X.evaluate(m, l) for m in case["rem"]):
                removed += 1
                continue
            v = b""
            if any(X.evaluate(m, l) for m in case["skip"]):
                skipped += 1
            else:
                v = b"%d" % n
                n += 1
            want.append((l + b"\t" + v if num[2] else v + b"\t" + l) if num else l)
    ctx.expect("numbered or filtered lines differ from the model", r.out, b"".join(x + b"\n" for x in want), r)
    ctx.count("lines_removed", removed)
    ctx.count("lines_not_numbered", skipped)
    return sig if want else None
