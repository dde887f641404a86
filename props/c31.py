"""C31: no run makes an invalid memory access (AddressSanitizer build of the whole program and its dependencies)."""
import os
import shutil
import subprocess
import sys
import time

import c26
import vf
from vf import Violation

ID = "C31"
QUICK, THOROUGH = 12000, 200000
CAP = 60
CAP_T = 2400
AS = None  # the sanitizer reserves terabytes of address space
RULE = ("one case = a run of cdx built with AddressSanitizer (program, dependencies and debug assertions) on a workload of the other generators: well-formed command lines, damaged ones as in C26, "
        "binsearch on files whose size is a multiple of the page size, so that one byte too many faults; the monitor is the sanitizer runtime plus exit-status, signal and panic watch; "
        "distinct = (tool, kind, outcome)")
ASSUMPTIONS = ["debug build with AddressSanitizer, nightly compiler", "files are not truncated by others while they are mapped"]
DIR = os.path.join(vf.TARGET, "vfasan")
EXE = os.path.join(DIR, "x86_64-unknown-linux-gnu", "debug", "cdx")
OPTS = "exitcode=86:detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:detect_stack_use_after_return=1:color=never"


def prepare(tier):
    if os.environ.get("CDX_NOBUILD"):
        return
    e = vf.cargo_env()
    e.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address", CARGO_TARGET_DIR=DIR, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
    # never trust mtimes: forget what is known about cdx itself (either layout of the build folder)
    base = os.path.join(DIR, "x86_64-unknown-linux-gnu", "debug")
    for fp in (os.path.join(base, ".fingerprint"), os.path.join(base, "build")):
        for d in os.listdir(fp) if os.path.isdir(fp) else []:
            if d == "cdx" or d.startswith("cdx-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if os.path.exists(EXE):
        os.unlink(EXE)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--bin", "cdx", "--target", "x86_64-unknown-linux-gnu"], cwd=vf.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not os.path.exists(EXE):
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-3000:])
        print("INCONCLUSIVE: no sanitized build")
        sys.exit(2)
    # the instrumentation must really be there
    n = subprocess.run(["nm", EXE], stdout=subprocess.PIPE).stdout.count(b"__asan_")
    if n < 20:
        print("INCONCLUSIVE: the build is not instrumented")
        sys.exit(2)
    print("sanitized build: %.1f s, %d sanitizer symbols" % (time.time() - t, n))


def gen(rng, idx, tier):
    r = rng.random()
    if r < 0.12:
        # files of exactly a page or two, searched at both ends
        size = 4096 * rng.randint(1, 2)
        w = rng.randint(1, 30)
        ls, n = [], 0
        while n < size:
            k = min(w + rng.randint(0, 5), size - n - 1)
            ls.append("".join(rng.choice("abc\t") for _ in range(k)))
            n += k + 1
        ls.sort()
        d = "".join(x + "\n" for x in ls)
        if rng.random() < 0.4:
            d = d[:-1] + "z"
        pat = rng.choice([ls[0].split("\t")[0], ls[-1].split("\t")[0], "b", "zzz", "", "a"])
        return {"files": {"f": d}, "args": ["binsearch", "-k", rng.choice(["1", "2", "", "5"]), "-C", str(rng.choice([0, 1, 3, 99])), "--", pat, "f"], "stdin": "", "kinds": ["page"], "dirs": []}
    if r < 0.5:
        a, f, s = c26.base(rng, idx, tier)
        return {"files": f, "args": a, "stdin": s, "kinds": ["plain"], "dirs": []}
    return c26.gen(rng, idx, tier)


def judge(ctx, case):
    for d in case["dirs"]:
        os.mkdir(os.path.join(ctx.dir, d))
    r = ctx.run(case["args"], case["stdin"], exe=EXE, env={"ASAN_OPTIONS": OPTS}, cpu=60)
    if r.rc == 86 or b"AddressSanitizer" in r.err:
        raise Violation("memory error: " + r.err[:300].decode("latin-1"), run=r.brief())
    ctx.sane(r)
    ctx.count("runs_sanitized")
    ctx.count("tool_" + case["args"][0])
    return "%s|%s|%s" % (case["args"][0], ",".join(sorted(set(case["kinds"]))), r.rc)
