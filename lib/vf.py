"""Common run-time-monitoring framework: build, run the real cdx binary under
watch, feed observations to a property's oracle, write evidence.

Three-valued verdicts: a case is OK, a VIOLATION (an oracle observed a wrong
output / a crash / an unbounded run), or inconclusive (harness trouble); only a
VIOLATION makes a check exit 1.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDX_REPO", "/repo")
TARGET = os.environ.get("CDX_TARGET", os.path.join(REPO, "target"))
EVID = os.environ.get("CDX_EVIDENCE", os.path.join(VERIF, "evidence"))
CDX = os.path.join(TARGET, "debug", "cdx")
HARNESS = os.path.join(TARGET, "debug", "cdxh")

CPU_LIMIT = 20       # seconds of CPU for one run that normally takes milliseconds
ORACLE_LIMIT = 40     # seconds of CPU the oracle may spend on one case
WALL_LIMIT = 90      # seconds of wall clock before a run is looked at
AS_LIMIT = 12 << 30
FSIZE_LIMIT = 256 << 20


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


def b2s(b):
    return b.decode("latin-1")


def s2b(s):
    return s.encode("latin-1") if isinstance(s, str) else s


# ---------------------------------------------------------------- build
def cargo_env():
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=TARGET)
    return env


def build(harness=False, optional=False):
    """Build the cdx binary (and the harness crate: all of it, or the named part) from REPO's working tree."""
    if os.environ.get("CDX_NOBUILD"):
        return
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    # never trust mtimes: drop cargo's notes about cdx itself (deps are kept)
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("cdx-") or d.startswith("cdxh-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if os.path.exists(CDX):
        os.unlink(CDX)
    t = time.time()
    for attempt in range(2):
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "cdx"], cwd=REPO,
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            break
        time.sleep(2)
    if p.returncode != 0 or not os.path.exists(CDX):
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-4000:])
        print("INCONCLUSIVE: cdx does not build")
        sys.exit(2)
    if harness:
        src = os.path.join(VERIF, "harness")
        work = tempfile.mkdtemp(prefix="cdxh.")
        try:
            shutil.copytree(os.path.join(src, "src"), os.path.join(work, "src"))
            toml = open(os.path.join(src, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
            open(os.path.join(work, "Cargo.toml"), "w").write(toml)
            shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(work, "Cargo.lock"))
            parts = ["--all-features"] if harness is True else ["--features", harness]
            p = subprocess.run(["cargo", "build", "--offline"] + parts, cwd=work,
                               env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                sys.stdout.write(p.stdout.decode("utf8", "replace")[-4000:])
                if optional:
                    # the library's interface changed: go on with what needs only the tools
                    print("NOTE: harness does not build; its part of the workload is left out")
                    if os.path.exists(HARNESS):
                        os.unlink(HARNESS)
                else:
                    print("INCONCLUSIVE: harness does not build")
                    sys.exit(2)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    print("build: %.1f s" % (time.time() - t))


# ---------------------------------------------------------------- running
class Res:
    __slots__ = ("args", "rc", "sig", "out", "err", "status")

    def __init__(self, args, rc, sig, out, err, status):
        self.args, self.rc, self.sig = args, rc, sig
        self.out, self.err, self.status = out, err, status

    @property
    def ok(self):
        return self.status == "exit" and self.rc == 0

    def brief(self):
        return {"args": self.args, "rc": self.rc, "sig": self.sig, "status": self.status,
                "out": b2s(self.out[:2000]), "err": b2s(self.err[:1500])}


class _Alarm(Exception):
    pass


def _on_alarm(_s, _f):
    raise _Alarm()


class Ctx:
    """One worker's scratch directory and monitor counters."""

    as_limit = AS_LIMIT

    def __init__(self, wid=0):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="cdxv.%d." % wid, dir=base)
        self.io = tempfile.mkdtemp(prefix="cdxio.%d." % wid, dir=base)
        self.counts = {}
        self.runs = 0
        os.chdir(self.dir)
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.signal(signal.SIGVTALRM, _on_alarm)
        if self.as_limit:
            resource.setrlimit(resource.RLIMIT_AS, (self.as_limit, self.as_limit))
        resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE_LIMIT, FSIZE_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "TMPDIR": self.io,
                    "RUST_BACKTRACE": "0", "LC_ALL": "C.UTF-8"}

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.io, ignore_errors=True)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def clean(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def write(self, name, data):
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(s2b(data))

    def files(self, case):
        for n, d in case.get("files", {}).items():
            self.write(n, d)

    def read(self, name):
        with open(os.path.join(self.dir, name), "rb") as f:
            return f.read()

    def run(self, args, stdin=b"", exe=None, out_to=None, env=None, cpu=CPU_LIMIT):
        """Run the binary to completion, watching CPU, wall clock and exit."""
        exe = exe or CDX
        fin, fout, ferr = (os.path.join(self.io, x) for x in ("in", "out", "err"))
        with open(fin, "wb") as f:
            f.write(s2b(stdin) if stdin is not None else b"")
        for attempt in range(2):
            acts = [(os.POSIX_SPAWN_OPEN, 0, fin, os.O_RDONLY, 0),
                    (os.POSIX_SPAWN_OPEN, 1, out_to or fout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644),
                    (os.POSIX_SPAWN_OPEN, 2, ferr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)]
            e = dict(self.env)
            if env:
                e.update(env)
            argv = [os.path.basename(exe)] + list(args)
            pid = os.posix_spawn(exe, argv, e, file_actions=acts)
            self.runs += 1
            try:
                resource.prlimit(pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
            except (OSError, ProcessLookupError):
                pass
            status = "exit"
            signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
            try:
                _, st = os.waitpid(pid, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except _Alarm:
                status = "wall"
                try:
                    s = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
                    if s[0] == "S":
                        status = "blocked"
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                _, st = os.waitpid(pid, 0)
            if status == "exit" or (status == "blocked" and attempt == 1):
                break
        rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        if sig in (signal.SIGXCPU,) and status == "exit":
            status = "cpu"
        with open(ferr, "rb") as f:
            err = f.read(1 << 20)
        out = b""
        if out_to is None:
            with open(fout, "rb") as f:
                out = f.read()
        r = Res([a if isinstance(a, str) else b2s(a) for a in args], rc, sig, out, err, status)
        if status == "wall":
            raise Inconclusive("wall clock exceeded without CPU or block: %r" % (args,))
        if sig == signal.SIGKILL and status == "exit":
            # killed from outside (memory pressure) or hard CPU limit
            raise Inconclusive("killed: %r" % (args,))
        return r

    def sane(self, r):
        """Any run must end by itself, without a panic, signal or hang."""
        self.count("runs_watched")
        if r.status == "cpu":
            raise Violation("does not terminate (CPU limit)", run=r.brief())
        if r.status == "blocked":
            raise Violation("blocks forever", run=r.brief())
        if r.sig is not None:
            raise Violation("killed by signal %d" % r.sig, run=r.brief())
        if r.rc == 101 or b"panicked at" in r.err:
            raise Violation("panic", run=r.brief())
        return r

    def good(self, args, stdin=b"", **kw):
        """Run; must succeed."""
        r = self.sane(self.run(args, stdin, **kw))
        if r.rc != 0:
            raise Violation("valid command failed with exit status %s" % r.rc, run=r.brief())
        return r

    def bad(self, args, stdin=b"", **kw):
        """Run; must report failure."""
        r = self.sane(self.run(args, stdin, **kw))
        if r.rc == 0:
            raise Violation("command should have failed but exit status is 0", run=r.brief())
        if not r.err:
            raise Violation("failed without any message", run=r.brief())
        return r

    def expect(self, what, got, want, r=None, **more):
        self.count("oracle_comparisons")
        if got != want:
            d = dict(more)
            d["got"] = b2s(got[:3000]) if isinstance(got, bytes) else repr(got)[:3000]
            d["want"] = b2s(want[:3000]) if isinstance(want, bytes) else repr(want)[:3000]
            if r is not None:
                d["run"] = {"args": r.args, "rc": r.rc, "err": b2s(r.err[:500])}
            raise Violation(what, **d)


# ---------------------------------------------------------------- driver
def case_rng(seed, pid, idx):
    h = hashlib.sha256(("%s/%s/%s" % (seed, pid, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def _judge(mod, ctx, case):
    ctx.clean()
    ctx.files(case)
    return mod.judge(ctx, case)


def _worker(wid, nw, mod, seed, tier, n, deadline, stop, q):
    ctx = None
    try:
        ctx = Ctx(wid)
        sigs, samples, evals, incon, nontriv = {}, [], 0, 0, 0
        fixed = list(getattr(mod, "FIXED", []))
        nf = len(fixed)
        for i in range(wid, nf + n, nw):
            if stop.is_set() or (i >= nf and time.time() > deadline):
                break
            case = None
            try:
                # the oracle itself must not be able to hold up the check
                signal.setitimer(signal.ITIMER_VIRTUAL, ORACLE_LIMIT)
                if i < nf:
                    case = fixed[i]
                else:
                    case = mod.gen(case_rng(seed, mod.ID, i - nf), i - nf, tier)
                sig = _judge(mod, ctx, case)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                evals += 1
                if sig is not None:
                    nontriv += 1
                    sigs[sig] = sigs.get(sig, 0) + 1
                    if len(samples) < 2:
                        samples.append(case)
            except Violation as v:
                evals += 1
                stop.set()
                q.put(("viol", i, case, v.msg, v.detail))
                break
            except (Inconclusive, _Alarm) as e:
                incon += 1
                q.put(("note", "inconclusive: %s" % e))
        q.put(("done", evals, incon, sigs, samples, ctx.counts, ctx.runs))
    except BaseException:
        q.put(("error", traceback.format_exc()))
    finally:
        if ctx:
            ctx.close()


def known_findings(pid):
    """[(text, case)] of recorded, unrepaired defects of this property."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                text, case = line[len("known: property=%s " % pid):].split(" case=", 1)
                out.append((text.strip(), json.loads(case)))
    return out


def run_property(pid, tier, seed, n=None, cap=None, nobuild=False):
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "props"))
    mod = importlib.import_module(pid.lower())
    if not nobuild:
        build(getattr(mod, "HARNESS", False), getattr(mod, "HARNESS_OPTIONAL", False))
    t_build = time.time() - t0
    Ctx.as_limit = getattr(mod, "AS", AS_LIMIT)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    n = n or (mod.QUICK * 5 if tier == "quick" else mod.THOROUGH)
    cap = cap or (max(60, getattr(mod, "CAP", 60)) if tier == "quick" else getattr(mod, "CAP_T", 700))
    nw = int(os.environ.get("CDX_WORKERS", "8"))
    deadline = time.time() + cap
    q = mp.Queue()
    stop = mp.Event()
    ps = [mp.Process(target=_worker, args=(w, nw, mod, seed, tier, n, deadline, stop, q)) for w in range(nw)]
    for p in ps:
        p.start()
    viols, errors, done = [], [], 0
    evals = incon = runs = 0
    sigs, counts, samples, notes = {}, {}, [], []
    while done < nw:
        try:
            m = q.get(timeout=cap + 300)
        except Exception:
            errors.append("workers did not answer")
            break
        if m[0] == "viol":
            viols.append(m[1:])
        elif m[0] == "note":
            if len(notes) < 20:
                notes.append(m[1])
        elif m[0] == "error":
            errors.append(m[1])
            done += 1
            stop.set()
        else:
            done += 1
            evals += m[1]
            incon += m[2]
            for k, v in m[3].items():
                sigs[k] = sigs.get(k, 0) + v
            samples += m[4]
            for k, v in m[5].items():
                counts[k] = counts.get(k, 0) + v
            runs += m[6]
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    if hasattr(mod, "extra") and not viols and not errors:
        ctx = Ctx(99)
        try:
            got = mod.extra(ctx, tier, seed)
            evals += got
            runs += ctx.runs
            for k, v in ctx.counts.items():
                counts[k] = counts.get(k, 0) + v
        except Violation as v:
            viols.append((-1, {"extra": True}, v.msg, v.detail))
        finally:
            ctx.close()
    known = []
    for text, case in known_findings(pid):
        ctx = Ctx(98)
        try:
            _judge(mod, ctx, case)
        except Violation:
            known.append(text)
        finally:
            ctx.close()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    rpaths = []
    for k, (i, case, msg, detail) in enumerate(viols[:3]):
        rp = os.path.join(EVID, "replay", "%s-%d.json" % (pid, k))
        with open(rp, "w") as f:
            json.dump({"property": pid, "index": i, "case": case, "what": msg, "detail": detail,
                       "seed": seed, "tier": tier,
                       "how": "python3 /verif/check.py %s --replay %s" % (pid, rp)}, f, indent=1)
        rpaths.append((rp, msg, detail))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": [_clip(s) for s in samples[:4]],
            "executions_of_cdx": runs,
            "monitor_events": dict(sorted(counts.items())),
            "inconclusive": incon,
            "known_findings_seen": known,
            "build_s": round(t_build, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s %s: %d evaluations, %d distinct, %d executions, %d inconclusive, %.1f s"
          % (pid, tier, evals, len(sigs), runs, incon, time.time() - t0))
    if os.environ.get("CDX_VERBOSE"):
        print(json.dumps(ev["coverage"]["monitor_events"]))
    for rp, msg, detail in rpaths:
        print("%s: %s" % (msg, json.dumps(detail)[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if viols:
        return 1
    if errors:
        print("INCONCLUSIVE: harness error\n" + errors[0])
        return 2
    if evals == 0 or incon > evals // 10:
        print("INCONCLUSIVE: too few conclusive executions")
        return 2
    return 0


def _clip(x):
    s = json.dumps(x)
    if len(s) > 4000:
        return s[:4000] + "..."
    return x


def replay(pid, path, nobuild=False):
    sys.path.insert(0, os.path.join(VERIF, "props"))
    mod = importlib.import_module(pid.lower())
    if not nobuild:
        build(getattr(mod, "HARNESS", False), getattr(mod, "HARNESS_OPTIONAL", False))
    Ctx.as_limit = getattr(mod, "AS", AS_LIMIT)
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    d = json.load(open(path))
    ctx = Ctx(0)
    try:
        if d["case"].get("extra"):
            mod.extra(ctx, d["tier"], d["seed"])
        else:
            _judge(mod, ctx, d["case"])
        print("replay: property holds on this case")
        return 0
    except Violation as v:
        print("%s: %s" % (v.msg, json.dumps(v.detail, indent=1)[:4000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    finally:
        ctx.close()
