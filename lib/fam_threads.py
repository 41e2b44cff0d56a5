import json
from core import *
from families import check

MC = {
    "O06": ("PublisherConc", """SPECIFICATION LSpec
CONSTANTS Threads = {%s} Observers = {1, 2} MaxCalls = %d Locked = TRUE
INVARIANTS RetOk SentSoFar Registry NoDup
%s
CHECK_DEADLOCK FALSE
"""),
    "V03": ("ValueConc", """SPECIFICATION LSpec
CONSTANTS Threads = {%s} MaxCalls = %d Amounts = {1, 3} Subs = {1, 2} Atomic = TRUE
INVARIANTS NothingLost RetOk
%s
CHECK_DEADLOCK FALSE
"""),
    "L03": ("LruConc", """SPECIFICATION LSpec
CONSTANTS Threads = {%s} MaxCalls = %d Keys = {1, 2, 3} MCap = 2 Locked = TRUE
INVARIANTS Agrees Capacity Found
%s
CHECK_DEADLOCK FALSE
"""),
}
TR = {"O06": "CONSTANTS Threads = {} Observers = {} MaxCalls = 0 Locked = TRUE\n",
      "V03": "CONSTANTS Threads = {} MaxCalls = 0 Amounts = {} Subs = {} Atomic = TRUE\n",
      "L03": "CONSTANTS Threads = {} MaxCalls = 0 Keys = {} MCap = 0 Locked = TRUE\n"}


def pub_op(r, timed):
    x = r.random()
    return f"n{r.randint(1, 9)}" if x < .35 else f"a{r.randint(1, 4)}" if x < .65 else f"r{r.randint(1, 4)}" if x < .93 else "c"


def val_op(r, timed):
    x = r.random()
    if x < .25:
        return f"+{r.randint(1, 300)}"
    if x < .4:
        return f"-{r.randint(1, 300)}"
    if x < .9:
        return r.choice(["++", "--", "p+", "p-"])
    return f"={r.randint(0, 99)}" if x < .95 else "g"


def lru_op(r, timed):
    if timed and r.random() < .15:
        return f"s{r.randint(1, 6)}"
    return f"p{r.randint(1, 4)}:{r.randint(1, 99)}" if r.random() < .5 else f"g{r.randint(1, 4)}"


@check("O06", "V03", "L03")
def threads(ctx):
    P, q = ctx.prop, ctx.quick
    fam, gen = dict(O06=("pub", pub_op), V03=("val", val_op), L03=("lru", lru_op))[P]
    bf = ctx.pool.submit(build, ctx, "concurrent.cpp", defs=("FAM_" + fam.upper(),), races=True, optional=("NO_LRU",) if fam == "lru" else ())
    mod, cfg = MC[P]
    live = "PROPERTIES Returns" if P == "O06" else ""
    jobs = [ctx.pool.submit(model_check, ctx, mod, cfg % ("1,2", 4 if q else 5, ""), "mc2", 2, 750, not q, (), "6g"),
            ctx.pool.submit(model_check, ctx, mod, cfg % ("1,2,3", 3 if q else 4, live if q else ""), "mc3", 2, 750, not q, (), "6g")]
    r = ctx.rng("scenarios")
    plan = ctx.pick("250 2 60 60", "5000 3 1500 1500")
    sess = []

    def head(seed):
        if fam == "pub":
            return f"S pub {plan} {seed}"
        if fam == "val":
            return f"S val {r.choice('idbl')} {r.choice([0, 1, 2, 3])} {plan} {seed}"
        return f"S lru {r.choice([1, 2, 2, 3, 4])} {r.randrange(2)} {r.choice([-1, -1, -1, 0, 3, 8])} {plan} {seed}"

    def scenario(setup, progs):
        sess.append([head(ctx.seed * 1009 + len(sess)), " ".join(setup) or "s1"] + [" ".join(p) for p in progs])
    # small ones that put the conflicting calls side by side
    fixed = dict(
        pub=[(["a1", "a2"], [["n5"], ["r1"]]), (["a1", "a2"], [["n5"], ["r2", "n6"]]), (["a1"], [["a2"], ["a2"]]), (["a1", "a2"], [["r1"], ["r1"]]),
             (["a1"], [["n5"], ["a2", "n6"]]), (["a1", "a2", "a3"], [["n1"], ["n2"], ["r2"]]), (["a1", "a2"], [["c"], ["n3"]]), (["a1", "a2"], [["c"], ["c"]]),
             ([], [["a1"], ["a2"], ["a3"]]), (["a1", "a2", "a3"], [["c", "a1"], ["n2", "r3"]]), ([], [["a1", "n1"], ["a1", "n2"], ["r1"]]),
             (["a1"], [["a1", "n4"], ["r1", "n5"]]), (["a1"], [["r2", "n4"], ["n5", "a2"]])],
        val=[([], [["++"], ["++"]]), ([], [["p+"], ["p+"]]), ([], [["--"], ["p-"]]), ([], [["+5"], ["-3"]]), ([], [["+5", "+7"], ["+1", "+2"]]),
             (["=10"], [["p-", "--"], ["++", "p+"]]), ([], [["++"], ["+2"], ["p+"]]), (["=7"], [["-2"], ["-3"], ["-4"]]), (["=3"], [["=5"], ["++"]])],
        lru=[([], [["p1:1", "g1"], ["p1:2", "g1"]]), (["p1:1"], [["g1"], ["p2:2", "p3:3"]]), (["p1:1", "p2:2"], [["g1", "g2"], ["p3:3", "g1"]]),
             ([], [["p1:1"], ["p2:2"], ["p3:3"]]), (["p1:1"], [["p1:2"], ["g1"], ["g1"]]), (["p1:1", "p2:2"], [["g1", "p3:3"], ["g2", "p4:4"]]),
             (["p1:1"], [["g1", "g2"], ["g2", "g1"]]), (["p1:1", "p2:2"], [["p1:3", "p2:4"], ["p2:5", "p1:6"]])])[fam]
    kinds = dict(pub=[None], val=list("idbl"), lru=[1, 2, 3])[fam]
    for s, pr in fixed:
        for _ in range(len(kinds)):
            scenario(s, pr)
    for k in range(ctx.pick(24, 160)):
        timed = k % 3 == 0
        progs = [[gen(r, timed) for _ in range(r.randint(1, 4))] for _ in range(r.choice([2, 2, 3, 3, 4]))]
        while sum(map(len, progs)) > 9:
            progs.pop()
        scenario([gen(r, timed) for _ in range(r.randint(0, 4))], progs)
    exe = bf.result()
    bins = [b for b in (sess[i::NCPU] for i in range(NCPU)) if b]

    def one(i):
        fn = ctx.path(f"script{i}")
        open(fn, "w").write("\n".join("\n".join(s) for s in bins[i]) + "\n")
        tr = ctx.path(f"trace{i}.ndjson")
        run_harness(ctx, exe, fn, tr, timeout=800)
        return split_sessions(tr), [tuple(map(int, l.split()[1:])) for l in open(tr + ".err") if l.startswith("explored")]
    sessions, runs, seen = [], [], set()
    for s, rr in ctx.pool.map(one, range(len(bins))):
        runs += rr
        for x in s:
            t = "\n".join(x)
            if t not in seen:
                seen.add(t)
                sessions.append(x)
    bad = validate(ctx, mod + "Trace", sessions, TR[P])
    for j in jobs:
        j.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["schedules_executed"] = sum(x[0] for x in runs)
    ctx.cov["scheduling_points"] = sum(x[3] for x in runs)
    ctx.cov["scenarios"] = len(sess)
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:10]] for k in (0, -1)]
    if bad:
        report_violation(ctx, dict(pub="concurrent publisher", val="concurrent value", lru="concurrent cache")[fam], mod + "Trace", bad, TR[P])
