import json
from core import *
import tour
from families import check

IMPL = """SPECIFICATION %s
CONSTANTS Kind = "%s" Prods = {%s} Items = %d Workers = %d N = %d Faulty = {2}
INVARIANTS Intact SlotOwned NoWriteBehindReader Even
PROPERTIES %s
CHECK_DEADLOCK FALSE
"""
ABS = """SPECIFICATION MSpec
CONSTANTS MKind = "%s" MProds = {1, 2} MItems = %d MWorkers = %d
INVARIANTS HandledOnce NothingLost NeverHandled OneAtATime InOrder
PROPERTIES FinalPhase
CHECK_DEADLOCK FALSE
"""
SETTLED = """SPECIFICATION Spec
CONSTANTS Prods = {%s} Workers = %d N = %d MaxQ = %d
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Consistent
CHECK_DEADLOCK FALSE
"""


def models(ctx, kind, inner_only=False):
    q = ctx.quick
    j = []
    def go(tag, mod, cfg, **k):
        j.append(ctx.pool.submit(model_check, ctx, mod, cfg, tag, 3, 750, not q, (), "6g", **k))
    if kind == "stage":
        go("i1", "PipelineImpl", IMPL % ("Spec", "stage", "1,2", 5 if q else 6, 1, 2, "Refines"))
        go("i2", "PipelineImpl", IMPL % ("Spec", "stage", "1,2,3", 4 if q else 6, 1, 1, "Refines"))
        if inner_only:
            return j
        go("l1", "PipelineImpl", IMPL % ("FairSpec", "stage", "1,2", 4 if q else 5, 1, 1, "PushEnds Closes"))
        go("a1", "Pipeline", ABS % ("stage", 3 if q else 5, 1))
    else:
        go("i1", "PipelineImpl", IMPL % ("Spec", "pool", "1", 6 if q else 7, 2, 1, "Refines"))
        go("i2", "PipelineImpl", IMPL % ("Spec", "pool", "1,2", 4 if q else 5, 2, 1, "Refines"))
        if not q:
            go("i3", "PipelineImpl", IMPL % ("Spec", "pool", "1", 6, 3, 1, "Refines"))
        go("l1", "PipelineImpl", IMPL % ("FairSpec", "pool", "1", 4 if q else 6, 2, 1, "PushEnds Closes"))
        go("a1", "Pipeline", ABS % ("pool", 3 if q else 4, 2))
    # the same ring buffer for any number of items
    j.append(inductive(ctx, "PipelineInd", ["CInit2"] if q else ["CInit1", "CInit2", "CInit3"], "IndInv", ["InOrder"], ["CBroken"]))
    return j


def directed_tours(ctx, prods, workers, n, maxq, limit=None):
    g = model_check(ctx, "PipelineSettled", SETTLED % (",".join(map(str, prods)), workers, n, maxq),
                    tag=f"gen-{len(prods)}-{workers}-{n}", workers=1)
    edges = edges_of(g)
    init = [[0] * workers, [False] * workers, [[] for _ in range(workers)]]
    return tour.tours(edges, init, max_len=60, limit=limit, rng=ctx.rng(f"t{prods}{workers}{n}"))


class Script:
    def __init__(self, ctx):
        self.ctx, self.out, self.n = ctx, [], 0

    def head(self, kind, n, k, mode, dfs=0, bound=0, rnd=0, pct=0, style=0):
        self.n += 1
        self.out.append(f"S {kind} {n} {k} {mode} {dfs} {bound} {rnd} {pct} {self.ctx.seed * 131 + self.n} {style}")

    def add(self, *a):
        self.out.append(" ".join(map(str, a)))


def free(s, kind, n, k, groups, plan, style=0, tail=()):
    """groups: list of (producer, count); numbers items in order"""
    s.head(kind, n, k, "free", *plan, style=style)
    v = 1
    for p, c in groups:
        s.add("p", p, *range(v, v + c))
        v += c
    for l in tail:
        s.add(*l)
    s.add("d")


def failing(s, r, kind, n, k, groups, plan):
    """some items cannot be copied"""
    s.head(kind, n, k, "free", *plan)
    v, bad = 1, 7000
    for p, c in groups:
        its = []
        for _ in range(c):
            if r.random() < .4:
                its.append(bad)
                bad += 1
            its.append(v)
            v += 1
        s.add("p", p, *its, bad)
        bad += 1
    s.add("d")


def chain(s, kind, n, k, groups, plan):
    s.head(kind, n, k, "chain", *plan)
    v = 1
    for p, c in groups:
        s.add("p", p, *range(v, v + c))
        v += c
    s.add("d")


def bulk(s, ctx, kind, n, k, groups):
    s.head(kind, n, k, "bulk", 1)
    v = 1
    for p, c in groups:
        s.add("p", p, v, v + c - 1)
        v += c + 1      # ranges do not touch


def directed(s, r, kind, n, k, ops, style=0, timed=False, jumps=False):
    s.head(kind, n, k, "directed", 1, style=style)
    v = 1
    for o in ops:
        if o["e"] == "p":
            s.add("p", o["t"] - 1, v)
            v += 1
        elif o["e"] == "o":
            s.add("o", o["w"] - 1)
        elif kind == "stage":
            s.add("q")
        if timed in (70, 71):     # calls that take minutes, hours
            if o["e"] != "p":
                s.add("t", r.choice([0, 1500, 30000000, 70000000] + [2400000000, 5000000000] * (timed == 71)))
        elif timed and r.random() < .7:
            s.add("t", r.choice([r.randrange(300), r.randrange(3000), r.randrange(60000), 10000 * r.randrange(12), 1000 * r.randrange(9)]))
        if jumps and r.random() < .1:
            s.add("j", r.choice([-3600, 3600, 5, -5, 86400 * 400]))
    s.add("d")


def pair(s, r, kind, n, k, ops, beside, style=0):
    """two objects of one type, each with its own commands, in some order"""
    s.head(kind, n, k, "pair", 1, style=style)
    v, todo = 1, [[(0, o) for o in reversed(ops)], [(1, o) for o in reversed(beside)]]
    while todo[0] or todo[1]:
        i = r.randrange(2)
        for _ in range(min(r.choice([1, 1, 2, 5]), len(todo[i]))):
            st, o = todo[i].pop()[0:2]
            if o["e"] == "p":
                s.add("P" if st else "p", *(() if st else (o["t"] - 1,)), v)
                v += 1
            elif o["e"] == "o":
                s.add("O" if st else "o", o["w"] - 1)
            elif kind == "stage":
                s.add("Q" if st else "q")
            if r.random() < .5:
                s.add("t", r.choice([r.randrange(300), r.randrange(3000), r.randrange(60000), 10000 * r.randrange(12), 1000 * r.randrange(9)]))
    s.add("d")


def random_ops(r, prods, workers, maxq, n):
    """a settled walk with a bias, so that queues both fill and drain"""
    ops, q, busy = [], [0] * workers, [False] * workers
    for _ in range(n):
        bias = .5 + .3 * (1 if (len(ops) // 25) % 2 else -1)
        ws = [w for w in range(workers) if busy[w]]
        tot = sum(q)
        if ws and (r.random() > bias or tot >= maxq * workers):
            w = r.choice(ws)
            ops.append(dict(e="o", w=w + 1))
            if q[w]:
                q[w] -= 1
            else:
                busy[w] = False
        else:
            i = min(range(workers), key=lambda w: q[w])
            if busy[i]:
                q[i] += 1
            else:
                busy[i] = True
            ops.append(dict(e="p", t=r.choice(prods)))
        if r.random() < .15:
            ops.append(dict(e="q"))
    return ops


def annotate(sessions):
    """pbeg gets the worker that handled the item later (prophecy for the trace specification)"""
    out = []
    for s in sessions:
        ev = [json.loads(x) for x in s]
        w = {}
        for e in ev:
            if e["e"] == "cbeg":
                w.setdefault(e["v"], e["w"])
        for e in ev:
            if e["e"] == "pbeg":
                e["w"] = w.get(e["v"], -1)
        out.append([json.dumps(e, separators=(",", ":")) for e in ev])
    return out


def unchain(s):
    """the log of two stages in a row, one stage at a time"""
    if not any('"st":' in x for x in s):
        return [s]
    ev = [json.loads(x) for x in s]
    return [[json.dumps({k: v for k, v in e.items() if k != "st"}, separators=(",", ":")) for e in ev if e.get("st", st) == st] for st in (0, 1)]


def project(sessions, drop, keep_w):
    seen, out = set(), []
    for s in sessions:
        ev = []
        for x in s:
            e = json.loads(x)
            if e["e"] == "done":
                continue
            for d in drop:
                e.pop(d, None)
            ev.append(json.dumps(e, separators=(",", ":")))
        t = "\n".join(ev)
        if t not in seen:
            seen.add(t)
            out.append(ev)
    return out


def run(ctx, kind, script, wide=None):
    """wide: sessions with more threads than the clocks of the race detector are made for"""
    P = ctx.prop
    exe = build(ctx, "pipeline.cpp", races=True)
    exe2 = build(ctx, "pipeline.cpp", "pipeline_wide", defs=("WIDE", "VS_THREADS=700")) if wide else None
    nsh = NCPU
    # one process per shard of sessions
    def split(out):
        sess, cur = [], []
        for l in out:
            if l.startswith("S ") and cur:
                sess.append(cur)
                cur = []
            cur.append(l)
        return sess + [cur]
    sess = split(script.out)
    bins = [(exe, sess[i::nsh]) for i in range(nsh) if sess[i::nsh]]
    if wide:
        bins += [(exe2, [x]) for x in split(wide.out)]
        sess += split(wide.out)

    def one(i):
        fn = ctx.path(f"script{i}")
        open(fn, "w").write("\n".join("\n".join(s) for s in bins[i][1]) + "\n")
        run_harness(ctx, bins[i][0], fn, ctx.path(f"trace{i}.ndjson"), timeout=800)
        runs = [tuple(map(int, l.split()[1:])) for l in open(ctx.path(f"trace{i}.ndjson.err")) if l.startswith("explored")]
        return split_sessions(ctx.path(f"trace{i}.ndjson")), runs

    sessions, runs = [], []
    for s, r in ctx.pool.map(one, range(len(bins))):
        sessions += s
        runs += r
    sessions = [y for x in sessions for y in unchain(x)]
    if P in ("P04", "P05"):
        sessions = annotate(sessions)
    sessions = project(sessions, () if P == "P05" else ("mt", "ml", "t"), P in ("P04", "P05"))
    consts = f'CONSTANTS\n Prop = "{P}"\n MKind = "stage"\n MProds = {{}}\n MItems = 0\n MWorkers = 0\n'
    bad = validate(ctx, "PipelineTrace", sessions, consts)
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["schedules_executed"] = sum(r[0] for r in runs)
    ctx.cov["scheduling_points"] = sum(r[3] for r in runs)
    ctx.cov["scenarios"] = len(sess)
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:10]] for k in (0, -1)]
    return bad, consts


def finish(ctx, what, jobs, bad, consts):
    for j in jobs:
        j.result()
    if bad:
        report_violation(ctx, what, "PipelineTrace", bad, consts)


def fill_and_drain(r, workers, n, calls):
    """Fill the queues to the brim behind busy workers, then let some calls end."""
    ops = [dict(e="p", t=1)] * ((n + 1) * workers - 3)
    for i in range(calls):
        ops += [dict(e="o", w=i % workers + 1), dict(e="q")]
        if r.random() < .3:
            ops.append(dict(e="p", t=1))
    return ops


@check("P01", "P02")
def stage(ctx):
    P, q = ctx.prop, ctx.quick
    r = ctx.rng()
    jobs = models(ctx, "stage")
    s = Script(ctx)
    covered = 0
    for prods, n in (((1, 2), 1), ((1, 2), 2), ((1, 2, 3), 1), ((1, 2, 3), 3)):
        seqs, c = directed_tours(ctx, prods, 1, n, n + len(prods) - 0)
        covered += c
        for ops in seqs:
            directed(s, r, "stage", n, 1, ops)
    for _ in range(ctx.pick(12, 120)):
        n = r.choice([1, 2, 3, 4, 16])
        pair(s, r, "stage", n, 1, random_ops(r, [1, 2, 3], 1, n, 50), random_ops(r, [1], 1, n, 50))
    plan = ctx.pick((500, 2, 120, 120), (12000, 3, 3000, 3000))
    little = ctx.pick((0, 0, 10, 10), (0, 0, 150, 150))
    shapes = [(1, [(1, 3), (2, 2)]), (2, [(1, 3), (2, 3)]), (1, [(1, 1), (2, 1), (3, 1)]), (2, [(1, 4), (0, 2)]),
              (3, [(1, 3), (2, 3), (3, 3)]), (1, [(0, 5)]), (2, [(0, 6)]), (4, [(1, 2), (2, 2)]), (3, [(0, 7), (1, 3)])]
    if P == "P02":
        shapes += [(1, []), (2, []), (1, [(0, 1)]), (3, [(0, 1)]), (16, [(0, 3)]), (1, [(0, 2)]), (2, [(1, 1)]), (4, [(1, 1), (2, 1)])]
    for n, g in shapes:
        free(s, "stage", n, 1, g, plan)
        if P == "P02" or len(g) == 1:
            free(s, "stage", n, 1, g, little, style=1)
            free(s, "stage", n, 1, g, plan, tail=[("s", 5)])
    for n, g in [(1, [(0, 3)]), (2, [(1, 2), (2, 2)]), (1, [(1, 2), (2, 2)]), (3, [(0, 4), (1, 2)])]:
        chain(s, "stage", n, 1, g, plan)
    for n, g in [(1, []), (1, [(0, 0)]), (1, [(0, 3)]), (2, [(1, 2), (2, 2)]), (3, [(0, 4), (1, 2), (2, 1)]), (4, [(0, 1)])]:
        failing(s, r, "stage", n, 1, g, plan)
    for n, g in [(2, [(0, 1)]), (4, [(0, 1), (1, 1)]), (16, [(0, 3), (1, 3)])]:
        free(s, "stage", n, 1, g, little if n > 4 else plan, style=4)
    for _ in range(ctx.pick(20, 120)):
        n = r.choice([1, 2, 3, 4, 16])
        g = [(p, r.randint(0, 3 * n + 3)) for p in r.sample([0, 1, 2, 3, 4], r.randint(1, 4))]
        free(s, "stage", n, 1, g, little, style=r.randrange(2))
    # more items than a narrow counter can number, buffers that do not divide its range
    big = [(3, [(0, 66000)]), (300, [(1, 66000)]), (3, [(0, 300), (1, 300), (2, 300)]), (300, [(0, 700)]), (16, [(1, 600), (2, 600)])]
    for n, g in big if q else big + [(1, [(1, 140000)]), (300, [(1, 70000), (2, 70000)])]:
        bulk(s, ctx, "stage", n, 1, g)
    bad, consts = run(ctx, "stage", s)
    ctx.cov["model_transitions_replayed"] = covered
    finish(ctx, "pipeline stage", jobs, bad, consts)


@check("P03", "P04")
def pool(ctx):
    P, q = ctx.prop, ctx.quick
    r = ctx.rng()
    jobs = models(ctx, "pool")
    s = Script(ctx)
    covered = 0
    one = P == "P04"
    for prods, k, n, mq in [((1,), 1, 1, 2), ((1,), 2, 1, 2), ((1,), 2, 2, 3), ((1,), 3, 1, 2), ((1,), 3, 2, 3)] + ([] if one else [((1, 2), 2, 1, 3), ((1, 2), 1, 2, 4), ((1, 2, 3), 2, 2, 3)]):
        seqs, c = directed_tours(ctx, prods, k, n, mq, ctx.pick(150, None))
        covered += c
        for ops in seqs:
            directed(s, r, "pool", n, k, ops)
    for _ in range(ctx.pick(40, 400)):
        n, k = r.choice([(4, 2), (8, 3), (4, 4), (2, 8), (1, 9), (16, 9), (16, 5)])
        directed(s, r, "pool", n, k, random_ops(r, [1] if one else [1, 2, 3], k, n, 150))
    for _ in range(ctx.pick(12, 120)):
        n, k = r.choice([(4, 2), (8, 3), (4, 4), (16, 5)])
        pair(s, r, "pool", n, k, random_ops(r, [1] if one else [1, 2, 3], k, n, 60), random_ops(r, [1], k, n, 60))
    if one:
        directed(s, r, "pool", 300, 2, fill_and_drain(r, 2, 300, 40))
    plan = ctx.pick((350, 2, 80, 80), (8000, 3, 2500, 2500))
    little = ctx.pick((0, 0, 8, 8), (0, 0, 120, 120))
    if one:
        for n, k, c in [(1, 2, 5), (2, 3, 8)]:
            failing(s, r, "pool", n, k, [(0, c)], plan)
        shapes = [(1, 1, 4), (1, 2, 5), (2, 2, 7), (1, 3, 6), (2, 3, 8), (4, 4, 9), (2, 8, 17), (1, 9, 19)]
        for n, k, c in shapes:
            free(s, "pool", n, k, [(0, c)], plan if k < 5 else little)
            free(s, "pool", n, k, [(1, c)], little, style=1)
            for extra in (0, 1, k, 3 * k):
                if n >= 2 or extra == 0:
                    free(s, "pool", n, k, [(1, 2 * k + extra)], little if k > 3 else plan, style=3)
    else:
        shapes = [(1, 1, [(1, 2), (2, 2)]), (1, 2, [(1, 3), (2, 2)]), (2, 2, [(1, 3), (2, 3)]), (1, 3, [(0, 4), (1, 3)]), (2, 3, [(1, 3), (2, 3), (3, 2)]),
                  (4, 2, [(0, 5)]), (1, 2, []), (2, 1, []), (2, 3, [(0, 1)]), (1, 1, [(0, 3)]), (2, 1, [(1, 3), (2, 3)]), (1, 9, [(1, 5)]), (16, 9, [(0, 4)])]
        for n, k, g in shapes:
            free(s, "pool", n, k, g, plan if k < 5 else little)
            free(s, "pool", n, k, g, little, style=1)
        for n, k, g in [(1, 1, [(0, 3)]), (1, 2, [(1, 2), (2, 2)]), (2, 3, [(0, 4), (1, 2)])]:
            chain(s, "pool", n, k, g, plan)
        for n, k, g in [(1, 1, [(0, 0)]), (1, 2, [(0, 3)]), (2, 2, [(1, 2), (2, 2)]), (2, 3, [(0, 4), (1, 2), (2, 1)]), (1, 3, [(0, 1)])]:
            failing(s, r, "pool", n, k, g, plan)
        for n, k, g in [(2, 1, [(0, 1)]), (2, 2, [(0, 1)]), (4, 2, [(0, 1), (1, 1)]), (16, 5, [(0, 3), (1, 3)])]:
            free(s, "pool", n, k, g, little if n > 4 else plan, style=4)
        for _ in range(ctx.pick(20, 120)):
            n, k = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3), (4, 2), (8, 3), (4, 4), (2, 8), (1, 9), (16, 9), (16, 1), (16, 5)])
            g = [(p, r.randint(0, (n + 1) * k + 3)) for p in r.sample([0, 1, 2, 3], r.randint(1, 3))]
            free(s, "pool", n, k, g, little, style=r.randrange(2))
        big = [(3, 2, [(0, 132100)]), (300, 2, [(0, 700), (1, 700)]), (3, 2, [(0, 700), (1, 300)]), (1, 9, [(0, 3000)])]
        for n, k, g in big if q else big + [(300, 2, [(0, 140000)]), (16, 1, [(0, 70000), (1, 70000)])]:
            bulk(s, ctx, "pool", n, k, g)
    # more workers than a narrow number can tell apart
    w = Script(ctx)
    w.n = 5000
    if one:
        for n, k in ((1, 140), (2, 300)):
            ops = [dict(e="p", t=1)] * (2 * k)
            for i in (k - 1, 3, 131, k - 2, 128, k // 2):
                ops += [dict(e="o", w=i + 1)] + [dict(e="p", t=1)] * (i % 3)
            directed(w, r, "pool", n, k, ops)
    for n, k, g in ((1, 140, [(0, 300)]), (2, 300, [(1, 20), (2, 330)]), (2, 300, [])):
        free(w, "pool", n, k, g[:1] if one else g, (0, 0, 1, 1), style=len(g) % 2)
    bad, consts = run(ctx, "pool", s, w)
    ctx.cov["model_transitions_replayed"] = covered
    finish(ctx, "worker pool", jobs, bad, consts)


@check("P05")
def figures(ctx):
    q = ctx.quick
    r = ctx.rng()
    jobs = models(ctx, "stage", True)
    s = Script(ctx)
    covered = 0
    for prods, k, n, mq in (((1, 2), 1, 1, 3), ((1,), 1, 4, 4), ((1,), 2, 2, 3)):
        seqs, c = directed_tours(ctx, prods, k, n, mq)
        covered += c
        for ops in seqs:
            for style in ((0, 2) if k == 1 else (0,)):
                directed(s, r, "stage" if k == 1 else "pool", n, k, ops, style=style, timed=True, jumps=True)
    for i in range(ctx.pick(90, 900)):
        if i % 2:
            n, k = r.choice([(1, 1), (2, 1), (3, 1), (4, 1), (16, 1)])
            directed(s, r, "stage", n, 1, random_ops(r, [1] if n > 4 else [1, 2, 3], 1, n, 120), style=r.choice([0, 2]), timed=True, jumps=i % 4 == 1)
        else:
            n, k = r.choice([(4, 2), (8, 3), (4, 4), (2, 8), (16, 9), (16, 1), (16, 5)])
            directed(s, r, "pool", n, k, random_ops(r, [1], k, n, 200), timed=True, jumps=i % 4 == 0)
    for i in range(ctx.pick(24, 240)):
        if i % 2:
            n = r.choice([1, 2, 3, 4, 16])
            pair(s, r, "stage", n, 1, random_ops(r, [1] if n > 4 else [1, 2, 3], 1, n, 60), random_ops(r, [1], 1, n, 60), style=r.choice([0, 2]))
        else:
            n, k = r.choice([(4, 2), (8, 3), (4, 4), (16, 1), (16, 5)])
            pair(s, r, "pool", n, k, random_ops(r, [1], k, n, 80), random_ops(r, [1], k, n, 80))
    directed(s, r, "stage", 300, 1, fill_and_drain(r, 1, 300, 14), timed=70)
    directed(s, r, "stage", 16, 1, random_ops(r, [1], 1, 16, 60), timed=70)
    directed(s, r, "pool", 300, 2, fill_and_drain(r, 2, 300, 28), timed=70)
    directed(s, r, "stage", 16, 1, random_ops(r, [1], 1, 16, 60), timed=71)
    directed(s, r, "pool", 16, 5, random_ops(r, [1], 5, 16, 150), timed=71)
    # queries while the worker runs: no data race
    plan = ctx.pick((400, 2, 100, 100), (8000, 3, 2000, 2000))
    for n, c in ((1, 3), (2, 4), (16, 13)):
        s.head("stage", n, 1, "free", *plan)
        s.add("p", 1, *range(1, c + 1))
        for _ in range(4):
            s.add("q")
        s.add("d")
    w = Script(ctx)
    w.n = 5000
    ops = [dict(e="p", t=1)] * 290
    for i in (139, 3, 131, 138, 128, 70, 139, 131, 3):
        ops += [dict(e="o", w=i + 1)] + [dict(e="p", t=1)] * (i % 3)
    directed(w, r, "pool", 2, 300, ops[:250] + ops[290:], timed=True)
    directed(w, r, "pool", 1, 140, ops[:280] + ops[290:], timed=True)
    bad, consts = run(ctx, "stage", s, w)
    ctx.cov["model_transitions_replayed"] = covered
    finish(ctx, "pipeline figures", jobs, bad, consts)
