"""C06: the order checks accept exactly the files that are in order."""
import gen as G
import keys as K
import model as M
from vf import Violation, s2b

ID = "C06"
QUICK, THOROUGH = 5000, 120000
RULE = ("one case = one file (sorted, sorted then perturbed by one swap / one duplicate / at the last line, or random) "
        "checked with sort -c, sort -C N, sort -cu, verify --sort and verify --unique; exit status must equal the model's "
        "is-sorted / is-strictly-sorted verdict, and the output of `cdx sort` must pass its own check; "
        "distinct = (methods, verdict, strict verdict, where the first disorder is)")
ASSUMPTIONS = ["numeric columns hold plain decimal numbers without negative zero"]


def gen(rng, idx, tier):
    kinds, nm = K.sortable(rng, tier)
    specs, ks = K.pick(rng, kinds, nm)
    keys = K.mk(ks)
    rows = G.table(rng, len(kinds), rng.choice([0, 1, 2, 2, 3, 4, 6, 10, 25]), kinds, close=rng.choice([0, 0.15, 0.5]))
    ls = ["\t".join(r).encode("latin-1") for r in rows]
    how = rng.choice(["sorted", "uniq", "swap", "last", "dup", "random"])
    if how != "random":
        ls = M.sort_lines(keys, ls)
    if how in ("uniq", "swap", "last", "dup"):
        ls = M.uniq_sorted(keys, ls)
    if len(ls) >= 2:
        if how == "swap":
            i = rng.randrange(len(ls) - 1)
            ls[i], ls[i + 1] = ls[i + 1], ls[i]
        elif how == "last":
            ls[-1], ls[-2] = ls[-2], ls[-1]
        elif how == "dup":
            i = rng.choice([0, len(ls) - 1, rng.randrange(len(ls))])
            ls.insert(i, ls[i])
    body = b"".join(x + b"\n" for x in ls).decode("latin-1")
    if rng.random() < 0.3 and body and ls[-1] != b"":
        body = body[:-1]
    head = " CDX\t" + "\t".join(nm) + "\n" if nm else ""
    kargs = []
    for s in specs:
        kargs += ["-k", s]
    return {"files": {"f": head + body}, "kargs": kargs, "keys": ks, "header": nm, "n": rng.randint(1, 4)}


def judge(ctx, case):
    keys = K.mk(case["keys"])
    ls = G.lines(s2b(case["files"]["f"]))
    if case["header"]:
        ls = ls[1:]
    c = [M.compare(keys, ls[i - 1], ls[i]) for i in range(1, len(ls))]
    is_sorted = all(x <= 0 for x in c)
    strict = all(x < 0 for x in c)
    k = case["kargs"]

    def verdict(args, want, what):
        r = ctx.sane(ctx.run(args))
        if r.rc not in (0, 1):
            raise Violation("unexpected exit status", run=r.brief())
        if r.out:
            raise Violation("a check wrote to standard output", run=r.brief())
        if (r.rc == 0) != want:
            raise Violation("%s %s a file that is %s" % (what, "accepted" if r.rc == 0 else "rejected",
                            "in order" if want else "not in order"), run=r.brief(), data=repr(ls[:30]))
        if not want and not r.err:
            raise Violation("rejected without a report", run=r.brief())
        if want and r.err:
            raise Violation("accepted but complained", run=r.brief())
        ctx.count("accepted" if want else "rejected")
        return r

    verdict(["sort", "-c"] + k + ["f"], is_sorted, "sort -c")
    verdict(["sort", "-c", "-u"] + k + ["f"], strict, "sort -cu")
    bad = sum(1 for x in c if x > 0)
    r = verdict(["sort", "-C", str(case["n"])] + k + ["f"], is_sorted, "sort -C")
    ctx.expect("sort -C N did not report min(N, number of disorders)",
               r.err.count(b"Lines are out of order\n"), min(case["n"], bad), r)
    if all(len(x.split(b"\t")) == len(ls[0].split(b"\t")) for x in ls) and ls:
        verdict(["verify", "--sort"] + k + ["f"], is_sorted, "verify --sort")
        verdict(["verify", "--unique"] + k + ["f"], strict, "verify --unique")
    r = ctx.good(["sort"] + k + ["f"])
    ctx.write("g", r.out)
    verdict(["sort", "-c"] + k + ["g"], True, "sort -c of the output of sort")
    if len(ls) < 2:
        return None
    first = next((i for i, x in enumerate(c) if x > 0), None)
    where = "none" if first is None else "last" if first == len(c) - 1 else "first" if first == 0 else "mid"
    return "%s|%s|%s|%s" % (",".join("%s%s%s" % ("L" if q[0] is None else "c", q[1], "-" if q[2] else "") for q in case["keys"]),
                            is_sorted, strict, where)
