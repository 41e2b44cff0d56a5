import json
from core import *
import tour
from families import check

ABS = """SPECIFICATION %s
CONSTANTS MPeriods = {%s} MChecks = {%s} MDur = {%s} MDelay = 1 MTime = %d MOver = %d MChange = %s
INVARIANTS Accumulates NeverAhead LongRun
PROPERTIES OnePerCheck MadeUp StoppedForGood AtMostOneMore InForce Unaltered %s
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS MPeriods = {%s} MChecks = {%s} MDur = {%s} MDelay = 1 MTime = 100000 MOver = %d MChange = %s
VIEW Gen
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
IMPL = """SPECIFICATION FairSpec
CONSTANTS Stoppers = {%s} MaxCalls = %d StopsEach = %d OwnCheck = TRUE
INVARIANT Final
PROPERTIES FinalStep InsideFinal Stops InsideReturns Ends
CHECK_DEADLOCK FALSE
"""
TRC = 'CONSTANT Prop = "%s"'


class Script:
    def __init__(self, ctx):
        self.ctx, self.s = ctx, []

    def add(self, p, c, plan, main, helpers=(), fn=None, beside=None, unit="", quiet=None):
        k = [f"S {p} {c} {plan} {self.ctx.seed * 131 + len(self.s)}{unit}", "m " + " ".join(main)]
        k += ["t " + " ".join(h) for h in helpers]
        k += [f"f {n} " + " ".join(x) for n, x in (fn or {}).items() if x]
        if quiet:
            k.append("q %d %d" % quiet)
        if beside:      # period, check, destroyed last, what happens in its calls
            k += ["n %d %d %d" % beside[:3]]
            k += [f"F {n} " + " ".join(x) for n, x in beside[3].items() if x]
        self.s.append(k)


UNIT = 10


def directed(s, init, ops):
    """one behaviour of Interval as a script: the main thread acts between the ticks"""
    main, fn, now, at, calls, left = [f"S{UNIT * 500}"], {}, 0, 0, 0, 0
    jump = 0
    incall = 0

    def upto():
        nonlocal at
        if now > at:
            main.append(f"s{(now - at) * UNIT}")
            at = now
    infn = None    # commands of the running call and the time spent in it so far
    for o in ops:
        e = o["e"]
        if e == "tick":
            now += 1
            if infn is not None:
                infn.append(f"s{UNIT}")
        elif e == "call":
            calls += 1
            infn = fn.setdefault(calls, [])
        elif e == "callend":
            infn = None
        elif e in ("setp", "setc"):
            cmd = f"{e[3]}{o['v'] * UNIT}"
            if o["in"]:
                infn += [cmd, e[3].upper()]
            else:
                upto()
                main += [cmd, e[3].upper()]
        elif e == "stop":
            if o["in"]:
                infn.append("x")
            else:
                upto()
                main.append("x")
                at = now = max(now, at)
        elif e == "ret":
            at = now
        elif e == "destroy":
            upto()
            break
    else:
        upto()
    s.add(init[0] * UNIT, init[1] * UNIT, "1 0 0 0", main, fn=fn)


def model_jobs(ctx):
    q, j = ctx.quick, []

    def go(tag, mod, cfg, w=2):
        j.append(ctx.pool.submit(model_check, ctx, mod, cfg, tag, w, 750, not q, (), "5g"))
    live = "StopReturns DestroyReturns"
    if ctx.prop == "I01":
        go("a1", "Interval", ABS % ("Spec", "1,2,3", "1,2,4", "0,1,5" if q else "0,1,2,5", 24 if q else 40, 12, "FALSE", ""))
        # any time, period and check interval
        j.append(inductive(ctx, "IntervalInd", ["CInit"], "IndInv", ["All"], ["CBroken"]))
    elif ctx.prop == "I02":
        go("a1", "Interval", ABS % ("FairSpec", "1,2", "1,3", "0,2", 9 if q else 14, 30, "FALSE", live))
        go("i1", "IntervalImpl", IMPL % ('"m"', 3, 3))
        go("i2", "IntervalImpl", IMPL % ('"m", "t"', 2 if q else 4, 2 if q else 3))
        if not q:
            go("i3", "IntervalImpl", IMPL % ('"m", "t", "u"', 3, 2))
    else:
        go("a1", "Interval", ABS % ("Spec", "1,3", "1,2", "0,2", 12 if q else 17, 12, "TRUE", ""))
    return j


def gen_tours(ctx, periods, checks, durs, over, change, limit=None):
    c = lambda x: ",".join(map(str, x))
    g = model_check(ctx, "Interval", GEN % (c(periods), c(checks), c(durs), over, "TRUE" if change else "FALSE"), tag="gen", workers=1)
    edges = edges_of(g)
    out = []
    for p in periods:
        for k in checks:
            t, n = tour.tours(edges, ["start", 1, 0, p, k, False, "use", 0], max_len=90, limit=limit, rng=ctx.rng(f"t{p}.{k}"))
            out += [((p, k), x) for x in t]
    return out


def random_cmds(r, change, n, jumps=True):
    out = []
    for _ in range(n):
        x = r.random()
        if x < .55:
            out.append(r.choice([f"s{r.randint(1, 60)}", f"S{r.randint(1, 20000)}", "s10", "s20"]))
        elif x < .7 and jumps:
            out.append(f"j{r.choice([-3600, 3600, -1, 1, 86400])}")
        elif change:
            k = r.choice("pc")
            out += [f"{k}{r.choice([1, 5, 10, 20, 30, 50, 70, 250])}", k.upper()]
        else:
            out.append(r.choice("PC"))
    return out


def apart(s):
    """the log of two events side by side, one at a time"""
    if '"ob":' not in s[0]:
        return [s]
    ev, out = [json.loads(x) for x in s], []
    for ob in (0, 1):
        out.append([json.dumps({k: v for k, v in e.items() if k != "ob"}, separators=(",", ":")) for e in ev if e.get("ob", ob) == ob])
    return out


def rejoin(sessions):
    """two init events in a row start one session"""
    out = []
    for s in sessions:
        if out and len(out[-1]) == 1 and '"ob":0' in out[-1][0]:
            out[-1] = out[-1] + s
        else:
            out.append(s)
    return [y for x in out for y in apart(x)]


def side_by_side(r, s, P, change, plan, n):
    """two events at once, each judged by its own history"""
    for k in range(n):
        p, c, p2, c2 = (r.choice([5, 10, 20, 50, 100]) for _ in range(4))
        late = r.randrange(2)
        fn = {i: [f"s{r.choice([2, p, 3 * p])}"] for i in r.sample(range(1, 8), 2)} if r.random() < .5 else {}
        f2 = {i: [f"s{r.choice([2, p2, 3 * p2])}"] for i in r.sample(range(1, 8), 2)} if r.random() < .5 else {}
        main = [f"s{r.randint(0, 60)}"]
        for _ in range(r.randint(1, 4)):
            main += [r.choice(["", "@"]) + x if x[0] not in "sSj" else x for x in random_cmds(r, change, 1)] + [f"s{r.randint(1, 80)}"]
        if P == "I02":
            main += r.choice([["x"], ["@x"], ["@x", f"s{r.randint(0, 60)}", "x"], []]) + [f"s{r.randint(0, 60)}"]
            if late and r.random() < .4:
                fn[r.randint(1, 4)] = ["@x"]
        hs = [[f"s{r.randint(1, 50)}", r.choice(["@P", "C", "@C", "P"])]] if r.random() < .3 else []
        s.add(p, c, plan, main + [f"s{r.randint(20, 150)}"], hs, fn, (p2, c2, late, f2))


def long_ones(r, s, change, n):
    """minutes, hours, months: moments and intervals beyond what narrow integers hold, logged in seconds"""
    S, H, D = 1000, 3600000, 86400000
    for late in (10**8, 10**9, 10**10, 10**11):      # up to 10^8 periods behind
        p, c = r.choice([(S, S), (2 * S, S), (S, 3 * S), (10 * S, S)])
        fn = {r.randint(1, 4): [f"s{late}"], 9: [f"s{r.choice([S, 7 * S])}"]}
        s.add(p, c, "1 0 0 0", [f"s{late + 100 * c}"], fn=fn, unit=" s")
    for k in range(n):
        p, c = r.choice([(45 * 60 * S, 60 * S), (2 * H, 5 * 60 * S), (D, H), (25 * D, 12 * H), (50 * D, D), (H, 2 * H), (40 * D, 40 * D), (3 * H, H),
                         (10 * S, S), (7 * D, H), (20 * 60 * S, 36 * 60 * S), (72 * 60 * S, 60 * S)])
        steps = r.randint(20, 120) if c >= 60 * S else 300
        total = max(steps * c, r.choice([1, 2, 3]) * p + c)
        while total // c > 2500:
            c *= 2
        fn = {i: [f"s{r.choice([S, p // S // 3 * S, (p + c) // S * S, 3 * p, *[10**8] * (2 * (p == 10 * S)), *[10**11] * (p == 10 * S)])}"] for i in r.sample(range(1, 6), 2)} if r.random() < .5 else {}
        main = []
        for _ in range(r.randint(1, 4)):
            main += [f"s{total // 4 // S * S}"]
            if change and r.random() < .6:
                main += r.choice([[f"p{r.choice([p, 2 * p, p // 2 // S * S, 10 * S])}", "P"], [f"c{r.choice([c, 2 * c, 30 * S, 7 * 60 * S] if total // c < 500 else [c, 2 * c])}", "C"], ["P", "C"]])
        s.add(p, c, "1 0 0 0", main, fn=fn, unit=" s")


@check("I01", "I02", "I03")
def interval(ctx):
    P, q = ctx.prop, ctx.quick
    bf = ctx.pool.submit(build, ctx, "interval.cpp", races=True)
    jobs = model_jobs(ctx)
    r = ctx.rng("scenarios")
    s = Script(ctx)
    tot = 0
    if P == "I01":
        for init, t in gen_tours(ctx, [1, 2, 3], [1, 2], [0, 1, 4], 8 if q else 14, False):
            directed(s, init, t)
        one = "1 0 0 0"
        for p, c in [(100, 20), (100, 7), (100, 99), (100, 100), (50, 100), (1, 1), (1, 20), (3, 2), (25, 10), (1000, 20), (20, 20), (-1, 20), (333, 50), (10, 1000), (10000, 400), (2, 500)]:
            n = 60 * max(p, c, 20) if p < 1000 else 4 * p
            s.add(p, c, one, [f"s{n}"])
            s.add(p, c, one, [x for k in range(12) for x in (f"s{n // 12}", f"j{r.choice([-7200, 7200, 86400, -5])}")])
            slow = {k: [f"s{r.choice([1, p // 2 + 1, p + 1, 3 * p + 5, 7 * abs(p)])}"] for k in r.sample(range(1, 40), 8)}
            s.add(p, c, one, [f"s{2 * n}"], fn=slow)
            s.add(p, c, one, [f"s{n}"], fn={"*": [f"s{max(1, abs(p) // 3)}"]})
            s.add(p, c, one, [f"s{n}"], fn={"*": [f"s{abs(p) + 3}"]})
        for p, c in [(10, 1), (3, 2), (1, 1)]:      # hundreds of periods to make up
            s.add(p, c, one, [f"s{330 * p + 700 * c}"], fn={2: [f"s{300 * p}"]})
        s.add(1, 1, one, ["s1500"])
        for n in ctx.pick([66000], [66000, 140000, 400000]):      # more calls than a narrow counter holds
            p, c = r.choice([(2, 1), (3, 2), (3, 1)])
            s.add(p, c, one, [f"s{(n + 60) * p}"], quiet=(9, n))
        for b in ctx.pick([70000], [5000, 70000, 140000]):         # more periods to make up than that
            s.add(3, 1, one, [f"s{b * 3 + b * 9 // 2 + 9000}"], fn={5: [f"s{3 * b}"]}, quiet=(7, b * 3 // 2 + 1000))
        plan = ctx.pick("150 1 100 40", "3000 3 2500 1500")
        for k in range(ctx.pick(24, 120)):
            p, c = r.choice([5, 10, 20, 50, 100]), r.choice([3, 5, 10, 20, 40])
            fn = {i: [f"s{r.choice([2, p, 3 * p])}"] for i in r.sample(range(1, 8), 2)} if r.random() < .5 else {}
            s.add(p, c, plan, random_cmds(r, False, r.randint(2, 6)) + [f"s{r.randint(20, 200)}"], fn=fn)
    elif P == "I02":
        for init, t in gen_tours(ctx, [1, 2], [1, 2], [0, 2], 4 if q else 8, False):
            directed(s, init, t)
        plan = ctx.pick("250 2 100 60", "6000 4 3000 2000")
        small = [([], []), (["x"], []), (["x", "x"], []), (["s5"], []), (["s10"], []), (["s10", "x"], []), (["s30", "x", "x"], []), (["s12", "x", "s30"], []),
                 ([], [["x"]]), (["x"], [["x"]]), (["s15", "x"], [["x"], ["s12", "x"]]), (["s31"], [["x", "x"]]), (["S1"], []), (["S10001"], []), (["s20", "P"], [["s10", "x"]])]
        fns = [{}, {1: ["x"]}, {2: ["x"]}, {1: ["s50"]}, {1: ["x", "s5", "x"]}, {2: ["s15", "x", "s15"]}, {"*": ["s3"]}]
        for m, h in small:
            for f in fns if q is False else r.sample(fns, 4):
                for p, c in r.sample([(10, 10), (10, 20), (20, 5), (1, 10), (100, 20), (10, 300)], 1 if q else 3):
                    s.add(p, c, plan, m, h, f)
        for k in range(ctx.pick(12, 120)):
            f = {r.randint(1, 4): r.choice([["x"], ["s20", "x"], ["s40"], ["x", "s10"]])} if r.random() < .6 else {}
            hs = [random_cmds(r, False, r.randint(0, 3), False) + ["x"] for _ in range(r.randint(0, 3))]
            s.add(r.choice([1, 5, 10, 20]), r.choice([5, 10, 20, 50]), plan, random_cmds(r, True, r.randint(0, 4)) + (["x"] if r.random() < .5 else []), hs, f)
    else:
        for init, t in gen_tours(ctx, [1, 3], [1, 2], [0, 2], 5 if q else 8, True):
            directed(s, init, t)
        one = "1 0 0 0"
        for p, c in [(100, 20), (20, 100), (1, 1), (5, 3), (-1, 20), (50, 50), (86400000, 20), (1000000, 999), (20, 60000)]:
            s.add(p, c, one, ["P", "C", f"s{5 * max(c, 20)}", "P", "C"])
        plan = ctx.pick("200 2 100 60", "4000 3 2500 1500")
        for p, c in [(10, 10), (20, 5), (30, 30), (50, 20), (100, 3)]:      # construction
            s.add(p, c, plan, ["s40"])
            s.add(p, c, plan, ["p40", "P", "c7", "C", "s80"])
            s.add(p, c, plan, ["s25"], fn={1: ["p15", "P", "c12", "C"]})
            s.add(p, c, plan, ["s5", "p35", "s30"], [["c8", "C", "p12", "P"]])
            s.add(p, c, plan, ["s15", "c4"], [["p60", "P"]], {1: ["p25", "P"], 2: ["c9"]})
        for k in range(ctx.pick(16, 120)):
            f = {r.randint(1, 4): random_cmds(r, True, r.randint(1, 3), False) for _ in range(r.randint(0, 2))}
            hs = [random_cmds(r, True, r.randint(1, 3), False) for _ in range(r.randint(0, 2))]
            s.add(r.choice([5, 10, 20, 50]), r.choice([3, 10, 20]), plan, random_cmds(r, True, r.randint(1, 5)), hs, f)
    if P != "I02":
        long_ones(ctx.rng("long"), s, P == "I03", ctx.pick(30, 200))
    side_by_side(r, s, P, P == "I03", "1 0 0 0", ctx.pick(40, 300))
    side_by_side(r, s, P, P == "I03", ctx.pick("60 2 40 20", "1500 3 1000 500"), ctx.pick(6, 60))
    exe = bf.result()
    sess = s.s
    bins = [b for b in (sess[i::NCPU] for i in range(NCPU)) if b]

    def one_bin(i):
        fn = ctx.path(f"script{i}")
        open(fn, "w").write("\n".join("\n".join(x) for x in bins[i]) + "\n")
        tr = ctx.path(f"trace{i}.ndjson")
        run_harness(ctx, exe, fn, tr, timeout=800)
        return rejoin(split_sessions(tr)), [tuple(map(int, l.split()[1:])) for l in open(tr + ".err") if l.startswith("explored")]
    sessions, runs, seen = [], [], set()
    for a, rr in ctx.pool.map(one_bin, range(len(bins))):
        runs += rr
        for x in a:
            t = "\n".join(x)
            if t not in seen:
                seen.add(t)
                sessions.append(x)
    bad = validate(ctx, "IntervalTrace", sessions, TRC % P)
    for j in jobs:
        j.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["schedules_executed"] = sum(x[0] for x in runs)
    ctx.cov["scheduling_points"] = sum(x[3] for x in runs)
    ctx.cov["scenarios"] = len(sess)
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:10]] for k in (0, -1)]
    if bad:
        report_violation(ctx, "periodic event", "IntervalTrace", bad, TRC % P)
