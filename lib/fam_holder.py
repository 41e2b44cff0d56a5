import json
import tour
from core import *
from families import check

MC = """SPECIFICATION Spec
CONSTANTS MSlots = %d MVals = {%s} MKind = "%s"
VIEW View
PROPERTIES OneEach Separate Copies Equal Failed
%s
CHECK_DEADLOCK FALSE
"""
C = 'CONSTANTS MSlots = 1 MVals = {} MKind = ""'


@check("F01")
def holders(ctx):
    q = ctx.quick
    bf = ctx.pool.submit(build, ctx, "holder.cpp", asan=True, opt="-O0", optional=("NO_MOVE_ONLY",))
    b2 = ctx.pool.submit(build, ctx, "holder.cpp", out="holder2", opt="-O2", optional=("NO_MOVE_ONLY",))
    gens = {k: ctx.pool.submit(model_check, ctx, "Holder", MC % (3, "1,2,13" if q else "1,2,3,13", k, "ACTION_CONSTRAINT Emit"), "gen" + k, 1) for k in ("both", "copy", "move")}
    mcs = [] if q else [ctx.pool.submit(model_check, ctx, "Holder", MC % (4, "1,2,3,13", k, ""), "mc" + k, 2) for k in ("both", "copy", "move")]
    r = ctx.rng("s")
    sess = []
    ctx.cov["model_transitions_replayed"] = 0

    def line(k, o):
        e = o["e"]
        if e == "make":
            return f"make {o['i']} {o['v']} {r.choice('lrci')}"
        if e in ("copy", "cassign"):
            return f"{e} {o['i']} {o['j']} {r.choice('lcb')}"
        if e == "set":
            return f"set {o['i']} {o['v']} {r.choice('as')}"
        return " ".join(str(o[x]) for x in ("e", "i", "j") if x in o)

    for kind, g in gens.items():
        edges = edges_of(g.result())
        seqs, covered = tour.tours(edges, [-1] * 3, max_len=100, limit=None, rng=ctx.rng("t" + kind))
        ctx.cov["model_transitions_replayed"] += covered
        for n, t in enumerate(seqs):
            sess.append([f"S {kind[0]} {n % 3}"] + [line(kind, o) for o in t])
    # longer histories, all layouts (those of layouts 3 and 4 never throw)
    for _ in range(ctx.pick(60, 1500)):
        k, lay = r.choice("bcm"), r.randrange(5)
        vals = [1, 2, 3, 0, 77, 200] + ([] if lay > 2 else [13, 13])
        s, o = [f"S {k} {lay}"], [None, None, None, None, None]
        for _ in range(r.randint(10, 60)):
            live = [i for i in range(1, 5) if o[i] is not None]
            free = [i for i in range(1, 5) if o[i] is None]
            x = r.random()
            if x < .08:
                s.append(f"vector {r.randint(1, 14)} {r.randrange(10 ** 6)}" if k != "m" or True else "")
                continue
            if not live or (free and x < .25):
                i, v = r.choice(free), r.choice(vals)
                s.append(f"make {i} {v} {r.choice('lrci')}")
                o[i] = v if v != 13 else None
            elif free and x < .5:
                i, j = r.choice(free), r.choice(live)
                e = "move" if k == "m" or r.random() < .5 else "copy"
                s.append(f"{e} {i} {j} {r.choice('lcb')}")
                if e == "move" and k != "c":
                    o[i], o[j] = o[j], 0
                elif o[j] != 13:
                    o[i] = o[j]
            elif x < .75:
                i, j = r.choice(live), r.choice(live)
                e = "massign" if k == "m" or r.random() < .5 else "cassign"
                s.append(f"{e} {i} {j} {r.choice('lc')}")
                if e == "massign" and k != "c":
                    if i != j:
                        o[i], o[j] = o[j], 0
                elif o[j] != 13:
                    o[i] = o[j]
            elif x < .85:
                i, v = r.choice(live), r.choice(vals)
                s.append(f"set {i} {v} {r.choice('as')}")
                o[i] = v
            elif x < .92:
                ok = [i for i in live if o[i] != 13]
                if len(ok) > 1:
                    i, j = r.sample(ok, 2)
                    s.append(f"swap {i} {j}")
                    o[i], o[j] = o[j], o[i]
            else:
                i = r.choice(live)
                s.append(f"drop {i}")
                o[i] = None
        sess.append(s)
    open(ctx.path("script"), "w").write("\n".join("\n".join(s) for s in sess) + "\n")
    side_by_side(ctx.path("script"), ctx.rng("pairs"), lambda w: w[1:])
    sessions = []
    for i, b in enumerate((bf, b2)):
        tr = ctx.path(f"trace{i}.ndjson")
        run_harness(ctx, b.result(), ctx.path("script"), tr, timeout=600)
        sessions += split_sessions(tr)
    bad = validate(ctx, "HolderTrace", sessions, C, shards=NCPU)
    for m in mcs:
        m.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:5]] for k in (0, -1)]
    if bad:
        report_violation(ctx, "holder", "HolderTrace", bad, C)
