import json
from core import *
import tour
import many
from families import check

MC = """---- MODULE MediatorMC ----
EXTENDS Mediator
S == 0 :> 1 @@ 1 :> 2 @@ 5 :> 2
R == 0 :> {2} @@ 1 :> {1, 3} @@ 5 :> {2, 4, 1}
===="""
CFG = """SPECIFICATION MSpec
CONSTANTS
 Sends <- S
 Recvs <- R
 MCap = %d
 MKinds = {%s}
 MMods = {%s}
 MDepth = %d
VIEW View
%s
INVARIANTS WithinCapacity OnlyTakers
CHECK_DEADLOCK FALSE
"""

IMPL = """SPECIFICATION Spec
CONSTANTS
 Sends <- S
 Recvs <- R
 Cap = 2
 Kinds = {%s}
 Mods = {%s}
 Depth = 2
 MaxOrder = %d
 Along = %s
INVARIANT Sorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""


def impl_models(ctx):
    """the array with its numbers refines Mediator; when the numbers stay behind it does not"""
    f = ctx.path("MediatorImplMC.tla")
    with open(f, "w") as o:
        o.write(MC.replace("MediatorMC", "MediatorImplMC").replace("EXTENDS Mediator\n", "EXTENDS MediatorImpl\n"))
    runs = [("0,1", "1,2,3", 3)] if ctx.quick else [("0,1", "1,2,3", 4), ("0,1,5", "1,2", 4), ("0,1,5", "1,2,3", 3)]
    go = lambda g, cfg, tag: ctx.pool.submit(g, ctx, "MediatorImplMC", cfg, tag, 3, 900, False, (), "6g", [f])
    return [go(model_check, IMPL % (k, m, o, "TRUE"), f"impl{i}") for i, (k, m, o) in enumerate(runs)] + \
           [go(must_fail, IMPL % ("0,1", "1,2,3", 3, "FALSE"), "broken")]


def large(r):
    """Far more modules, and far more registrations, than a narrow counter holds."""
    # callbacks read commands up to ".", so every message is followed by enough of them
    dots = ["."] * 310
    msg = lambda: [r.choice([f"s {r.randrange(310)} {r.randrange(4096)}", f"g {r.randint(1, 5)} {r.randrange(4096)}"])] + dots
    out = ["S 300 310"]
    order = list(range(310))
    r.shuffle(order)
    out += [f"m {i} {r.randrange(11)}" for i in order[:150]]
    out += [f"c {order[150]} {r.randrange(11)} {65536 - 170}"] + msg()
    out += [f"m {i} {r.randrange(11)}" for i in order[150:]] + msg() + msg()
    out += [f"c {order[309]} 0 3"]
    out += [f"k {i}" for i in r.sample(order, 60)] + msg()
    out += [f"m {i} {r.randrange(11)}" for i in order] + msg() + msg()
    out += [f"k {i}" for i in r.sample(order, 309)] + msg()
    return out


def mediator(ctx):
    P, q = ctx.prop, ctx.quick
    build_f = ctx.pool.submit(build, ctx, "mediator.cpp", asan=True, opt="-O0", optional=("NO_MUTE", "NO_CONV"))
    r = ctx.rng("rand")
    mc = ctx.path("MediatorMC.tla")
    with open(mc, "w") as f:
        f.write(MC)
    gen = model_check(ctx, "MediatorMC", CFG % (2, "0,1", "0,1,2", 1 if P == "M02" else 2, "ACTION_CONSTRAINT Emit"), tag="gen", workers=4, files=[mc])
    big = ctx.pool.submit(model_check, ctx, "MediatorMC", CFG % (2 if q else 3, "0,1,5", "0,1,2" if q else "0,1,2,3", 2, ""), "big", 4, 700, not q, (), "8g", [mc])
    thousands = many.start(ctx, ["m"]) if P == "M02" else None
    more = impl_models(ctx) if P == "M02" else []
    edges = edges_of(gen)
    init = next(s for s, o, d in edges if not s[0] and not s[1])
    seqs, covered = tour.tours(edges, init, max_len=150, limit=ctx.pick(1500, None), rng=ctx.rng("tour"))
    with open(ctx.path("script"), "w") as f:
        for ops in seqs:
            f.write("S 2 12\n")
            for o in ops:
                e = o["e"]
                if e == "make":
                    f.write(f"m {o['m']} {o['k']}\n")
                elif e == "kill":
                    f.write(f"k {o['m']}\n")
                elif e == "send":
                    f.write(f"s {o['m']} {r.randrange(256)}\n")
                elif e == "raw":
                    f.write(f"w {o['m']} {r.randrange(256)} {r.choice([0, 3, 5, 7, 9, 12, 14, 300])}\n")
                elif e == "msend" and o["t"]:
                    f.write(f"g {o['t']} {r.randrange(256)}\n")
                elif e == "ret":
                    f.write(".\n")
        for k in range(ctx.pick(600, 6000)):
            cap = r.choice([1, 2, 3, 8, 8])
            f.write(f"S {cap} 12\n")
            nested = r.random() < .5
            nm = min(12, cap + r.randint(1, 4))
            for _ in range(ctx.pick(60, 200)):
                x = r.random()
                if nested and x < .45:
                    f.write(".\n")
                    continue
                x = r.random()
                if x < (.35 if P == "M01" else .4):
                    f.write(f"m {r.randrange(nm)} {r.randrange(11)}\n")
                elif x < (.43 if P == "M01" else .6):
                    f.write(f"k {r.randrange(nm)}\n")
                elif x < .8:
                    f.write(f"s {r.randrange(nm)} {r.randrange(4096)}\n")
                elif x < .86:
                    f.write(f"w {r.randrange(nm)} {r.randrange(4096)} {r.choice([0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 14, 260])}\n")
                else:
                    f.write(f"g {r.randint(1, 5)} {r.randrange(4096)}\n")
                if not nested:
                    f.write(".\n" * 0)
        for _ in range(ctx.pick(2, 12)):
            f.write("\n".join(large(r)) + "\n")
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    side_by_side(ctx.path("script"), ctx.rng("pairs"), lambda w: w[1])
    run_harness(ctx, exe, ctx.path("script"), tr)
    sessions = split_sessions(tr)
    consts = f'CONSTANTS\n Prop = "{P}"\n Sends <- HSends\n Recvs <- HRecvs\n MCap = 0\n MKinds = {{}}\n MMods = {{}}\n MDepth = 0\n'
    bad = validate(ctx, "MediatorTrace", sessions, consts)
    for j in [big] + more:
        j.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:8]], [json.loads(x) for x in sessions[-1][-8:]]]
    if bad:
        report_violation(ctx, "mediator", "MediatorTrace", bad, consts)
    if thousands:
        many.finish(ctx, thousands, "mediator")


check("M01", "M02")(mediator)
