"""C24: a read or write that fails is reported; nothing is passed off as complete."""
import os

import c03
import c22
import c23
import gen as G
import shim
from vf import HARNESS as EXE, Violation, s2b

ID = "C24"
HARNESS = "spill"
HARNESS_OPTIONAL = True
QUICK, THOROUGH = 9000, 180000
CAP = 40
RULE = ("one case = a tool with random options and files, and one fault: a write failing after N bytes (out of space, I/O error; for good or just once), a reader that went away, "
        "a read failing after N bytes, a missing file or a directory among the inputs, a gzip file cut short or with flipped bits, an output file that cannot be "
        "made, or a write failing in a sort that spills; whenever the fault was injected the exit status must be non-zero with a message, and what was "
        "written must be the beginning of the right output; distinct = (tool, fault, place of the fault)")
ASSUMPTIONS = ["a reader closing the pipe is not an error: the tool stops quietly with status 0"]
KINDS = ["wfail"] * 5 + ["rfail"] * 4 + ["epipe", "missing", "missing", "dir", "gztrunc", "gztrunc", "gzflip", "outdir", "spill", "spill", "devfull", "wonce", "wonce"]


def prepare(tier):
    global KINDS
    shim.build()
    if not os.path.exists(EXE):
        KINDS = [x for x in KINDS if x != "spill"]


def gen(rng, idx, tier):
    kind = rng.choice(KINDS)
    if kind == "spill":
        c = c03.gen(rng, idx, tier)
        c["kind"] = kind
        c["at"] = rng.choice([0, rng.randint(0, 300), rng.randint(0, 30000)])
        c["op"] = rng.choice(["wfail", "wfail", "rfail"])
        c["errno"] = 28 if c["op"] == "wfail" else 5
        c["once"] = rng.choice([None, 1])
        return c
    while True:
        c = c23.gen(rng, idx, tier)
        if kind == "outdir" and c["tool"] != "join":
            continue
        if kind == "wonce" and (sum(len(c["files"][x]) for x in c["args1"]) < 9000 or c["tool"] in ("wc", "wcl", "verify", "sample", "uniq")):
            continue
        if kind in ("missing", "dir", "gztrunc", "gzflip", "rfail") and c["tool"] == "verify":
            continue
        if kind in ("gztrunc", "gzflip") and ("early" in c["args"] or c["tool"] == "sample" and ("range" in c["args"][1] or c["args"][1].count(",") == 2)):
            continue  # these need not read everything
        break
    c["kind"] = kind
    c["once"] = rng.choice([None, None, 1])
    nf = len(c["args1"])
    total = sum(len(c["files"][x]) for x in c["args1"])
    if kind in ("wfail", "epipe"):
        c["at"] = rng.choice([0, 1, rng.random(), rng.random(), rng.random(), "last"])
        c["errno"] = 32 if kind == "epipe" else rng.choice([28, 5])
    elif kind == "wonce":
        c["at"] = [rng.random() for _ in range(6)]
    elif kind == "rfail":
        c["at"] = rng.choice([0, 1, rng.randint(0, total), rng.randint(0, total), total])
    elif kind in ("missing", "dir"):
        c["which"] = rng.randrange(nf)
        c["path"] = rng.choice(["nosuchfile", "nodir/x", "f0/x"]) if kind == "missing" else "."
    elif kind in ("gztrunc", "gzflip"):
        i = rng.randrange(nf)
        d = s2b(c["files"]["f%d" % i])
        while True:
            z = c23.gz(rng, d)
            if z[4:].find(b"\x1f\x8b\x08") < 0:
                break
        if kind == "gztrunc":
            c["cut"] = rng.choice([rng.randint(3, len(z) - 1), len(z) - rng.randint(1, 9)])
            z = z[:max(3, c["cut"])]
        else:
            k = len(z) - rng.randint(1, 8)
            b = bytearray(z)
            b[k] ^= 1 << rng.randrange(8)
            z = bytes(b)
        c["files"]["z%d" % i] = z.decode("latin-1")
        c["which"] = i
    return c


def prefix(r, out, want):
    if not want.startswith(out):
        raise Violation("what was written before the failure is not the beginning of the right output", run=r.brief(), want=want[:3000].decode("latin-1"))


def failed(ctx, r, what):
    ctx.sane(r)
    if r.rc == 0:
        raise Violation("%s, but exit status is 0" % what, run=r.brief())
    if not r.err:
        raise Violation("%s, but there was no message" % what, run=r.brief())
    ctx.count("faults_reported")


def judge(ctx, case):
    k = case["kind"]
    if k == "spill":
        a = ["spill", str(case["alloc"]), "1" if case["unique"] else "0", str(len(case["specs"]))] + case["specs"] + sorted(case["files"])
        want = ctx.good(a, exe=EXE).out
        n = None
        r = ctx.sane(ctx.run(a, exe=EXE, env=shim.env(ctx, once=case["once"], **{case["op"]: "%d,%d" % (case["at"], case["errno"])})))
        m = shim.mark(ctx)
        if "R" in m or "W" in m:
            failed(ctx, r, "a %s failed" % ("read" if "R" in m else "write"))
            prefix(r, r.out, want)
        else:
            ctx.expect("output differs though nothing failed", r.out, want, r)
            if r.rc != 0:
                raise Violation("fails though nothing failed", run=r.brief())
            return None
        return "spill|%s|%d|%s" % (case["op"], case["at"].bit_length(), case["unique"])
    a, t, f1 = case["args"], case["tool"], case["args1"]
    base = ctx.sane(ctx.run(a + f1))
    sig = "%s|%s|%s|" % (t, k, case["pre"])
    if k in ("wfail", "epipe"):
        if base.rc != 0:
            return None
        n = len(base.out) + (os.path.getsize(os.path.join(ctx.dir, "un1")) if any("un1" in x for x in a) else 0)
        at = case["at"]
        at = max(0, n - 1) if at == "last" else int(at * n) if isinstance(at, float) else at
        r = ctx.sane(ctx.run(a + f1, env=shim.env(ctx, wfail="%d,%d" % (at, case["errno"]), wmax=case["wmax"], once=case["once"])))
        m = shim.mark(ctx)
        if "W" in m:
            if k == "epipe":
                if r.rc != 0:
                    raise Violation("the reader went away, which is no error, but exit status is %s" % r.rc, run=r.brief())
                ctx.count("pipes_closed")
            else:
                failed(ctx, r, "a write failed after %d bytes" % at)
            prefix(r, r.out, base.out)
        else:
            if at < n:
                raise Violation("the output was not written", run=r.brief(), want=base.brief())
            ctx.expect("output differs though nothing failed", r.out, base.out, r)
            return None
        return sig + str(at.bit_length())
    if k == "wonce":
        # one failed write for every buffer full: none of the calls that may meet it may forget it
        if base.rc != 0:
            return None
        n, seen = len(base.out), 0
        for j, x in enumerate(case["at"]):
            at = int(8192 * (j + x))
            if at >= n:
                break
            r = ctx.sane(ctx.run(a + f1, env=shim.env(ctx, wfail="%d,28" % at, once=1)))
            if "W" not in shim.mark(ctx):
                raise Violation("the output was not written", run=r.brief(), want=base.brief())
            failed(ctx, r, "one write failed after %d bytes" % at)
            prefix(r, r.out, base.out)
            seen += 1
        return sig + str(seen) if seen else None
    if k == "devfull":
        if base.rc != 0 or not base.out:
            return None
        failed(ctx, ctx.run(a + f1, out_to="/dev/full"), "the device was full")
        return sig
    if k == "rfail":
        if base.rc != 0:
            return None
        r = ctx.sane(ctx.run(a + f1, env=shim.env(ctx, rfail="%d,5" % case["at"], rmax=case["rmax"], once=case["once"])))
        if "R" in shim.mark(ctx):
            failed(ctx, r, "a read failed after %d bytes" % case["at"])
            prefix(r, r.out, base.out)
        else:
            ctx.expect("output differs though nothing failed", r.out, base.out, r)
            return None
        return sig + str(case["at"].bit_length())
    if base.rc != 0:
        return None
    if k in ("missing", "dir"):
        f = list(f1)
        f[case["which"]] = case["path"]
        r = ctx.run(a + f)
        failed(ctx, r, "an input file cannot be read")
        return sig + "%d/%d|%s" % (case["which"], len(f1), case["path"])
    if k in ("gztrunc", "gzflip"):
        f = list(f1)
        f[case["which"]] = "z%d" % case["which"]
        r = ctx.run(a + f)
        failed(ctx, r, "a gzip file is damaged")
        if k == "gztrunc":
            prefix(r, r.out, base.out)
        return sig + "%d/%d|%s" % (case["which"], len(f1), case["files"][f[case["which"]]].__len__().bit_length())
    if k == "outdir":
        f = ["join", "-k", "1", "--also=1,nodir/out"] + f1
        failed(ctx, ctx.run(f), "an output file cannot be made")
        return sig
    raise AssertionError(k)
