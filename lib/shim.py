"""Fault-injection shim (harness/shim/shim.c): compiled next to the build products, preloaded into runs of cdx."""
import os
import subprocess
import sys

import vf

SO = os.path.join(vf.TARGET, "debug", "vfshim.so")


def build():
    src = os.path.join(vf.VERIF, "harness", "shim", "shim.c")
    tmp = SO + ".%d" % os.getpid()
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-2000:])
        print("INCONCLUSIVE: the shim does not build")
        sys.exit(2)
    os.rename(tmp, SO)


def env(ctx, **kw):
    """Environment for a run under the shim; ctx.io/mark receives what was injected."""
    m = os.path.join(ctx.io, "mark")
    if os.path.exists(m):
        os.unlink(m)
    e = {"LD_PRELOAD": SO, "VF_MARK": m}
    e.update({"VF_" + k.upper(): str(v) for k, v in kw.items() if v is not None})
    return e


def mark(ctx):
    m = os.path.join(ctx.io, "mark")
    return open(m).read() if os.path.exists(m) else ""
