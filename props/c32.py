"""C32: tools change nothing but the outputs asked for, leave no temporary files, and are deterministic."""
import os
import re
import shutil

import c26
import shim
from vf import Violation, s2b

ID = "C32"
QUICK, THOROUGH = 14000, 250000
CAP = 50
RULE = ("one case = a well-formed or damaged command line of any tool, run twice in the same directory, half of the time the second time with reads delivered in small pieces; after each run every input file must be "
        "byte-identical with unchanged permissions, nothing may have been created in the working directory except files the command line names, the temporary directory must be empty again whether the run "
        "succeeded or failed, and both runs must agree in exit status, output and messages; distinct = (tool, kinds of damage, exit status)")
ASSUMPTIONS = ["random generators (filegen decimal and normal, random order) are exempt from determinism"]


def prepare(tier):
    shim.build()


def gen(rng, idx, tier):
    if rng.random() < 0.6:
        a, f, s = c26.base(rng, idx, tier)
        c = {"files": f, "args": a, "stdin": s, "kinds": ["plain"], "dirs": []}
    else:
        c = c26.gen(rng, idx, tier)
    c["pieces"] = rng.choice([None, "1", "3,7", "4096", "1,100,2"])
    if c["pieces"] == "1" and sum(map(len, c["files"].values())) > 20000:
        c["pieces"] = "4096"
    return c


def snap(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = (f.read(), st.st_mode)
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d) + "/"] = None
    return out


def named_outputs(args):
    """Files join is told to write: the values of --file and --also, in every spelling (-f v, -fv, --file v, --fi=v)."""
    out = set()
    for i, a in enumerate(args):
        nxt = args[i + 1] if i + 1 < len(args) else ""
        m = re.match(r"^(?:-([af])=?|--(a(?:l(?:so?)?)?|f(?:i(?:le?)?)?)(=|$))(.*)$", a, re.S)
        if m:
            v = m.group(4) or nxt
            kind = (m.group(1) or m.group(2))[0]
            for v in (v, v.lstrip("=")):
                if kind == "f":
                    out.add(v)
                elif "," in v:
                    out.add(v.split(",", 1)[1])
    return {os.path.normpath(v) for v in out if v and "\0" not in v}


def judge(ctx, case):
    for d in case["dirs"]:
        os.mkdir(os.path.join(ctx.dir, d))
    tmp = os.path.join(ctx.io, "t")
    if os.path.isdir(tmp):
        shutil.rmtree(tmp)
    os.mkdir(tmp)
    before = snap(ctx.dir)
    text = " ".join(case["args"])
    outs = set()
    if case["args"][0] == "join":
        outs = named_outputs(case["args"])
    res, made = [], []
    for k in range(2):
        e = {"TMPDIR": tmp}
        over = [n for n in outs if before.get(n)]
        for n in over if k else []:
            # the command line told it to write over this one: start from the same files again
            with open(os.path.join(ctx.dir, n), "wb") as f:
                f.write(before[n][0])
        if k and case["pieces"] and not over:
            e.update(shim.env(ctx, rmax=case["pieces"]))
        r = ctx.sane(ctx.run(case["args"], case["stdin"], env=e))
        res.append(r)
        after = snap(ctx.dir)
        for n in before:
            named = n in outs
            if n not in after:
                raise Violation("a file disappeared: %s" % n, run=r.brief())
            if after[n] != before[n] and not named:
                raise Violation("an input file was changed: %s" % n, run=r.brief())
        for n in after:
            if n not in before:
                if n not in outs:
                    raise Violation("an unexpected file was created: %s" % n, run=r.brief())
                ctx.count("outputs_created")
                os.unlink(os.path.join(ctx.dir, n))
        made.append({n: after[n] for n in outs if n in after})
        left = os.listdir(tmp)
        if left:
            raise Violation("temporary files left behind: %s" % left, run=r.brief())
        ctx.count("snapshots_compared")
    rnd = "random" in text or (case["args"][0] == "filegen" and ("dec" in text or "norm" in text))
    a, b = res
    ctx.expect("exit status differs between two runs", b.rc, a.rc, b)
    if not rnd:
        ctx.expect("output differs between two runs", b.out, a.out, b)
        ctx.expect("messages differ between two runs", b.err, a.err, b)
        ctx.expect("output files differ between two runs", made[1], made[0], b)
        ctx.count("determinism_checked")
    return "%s|%s|%d" % (case["args"][0], ",".join(sorted(set(case["kinds"]))), a.rc)
