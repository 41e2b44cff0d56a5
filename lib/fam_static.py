import json
from core import *
import tour
from families import check

MC = """---- MODULE StaticPublisherMC ----
EXTENDS StaticPublisher
Bnd == %s
===="""
CFG = """SPECIFICATION MSpec
CONSTANTS
 MBound <- Bnd
 MDepth = %d
VIEW View
%s
INVARIANTS SourcesDiffer SuffixLeft
CHECK_DEADLOCK FALSE
"""


def static_publisher(ctx):
    q = ctx.quick
    build_f = ctx.pool.submit(build, ctx, "static_publisher.cpp", asan=True, opt="-O0")
    r = ctx.rng("rand")
    with open(ctx.path("StaticPublisherMC.tla"), "w") as f:
        f.write(MC % "(0 :> <<1, 0>>) @@ (1 :> <<0, 1, 2>>) @@ (2 :> <<0, 4>>)")
    mod = [ctx.path("StaticPublisherMC.tla")]
    gen = model_check(ctx, "StaticPublisherMC", CFG % (2, "ACTION_CONSTRAINT Emit"), tag="gen", workers=4, files=mod)
    big = ctx.pool.submit(model_check, ctx, "StaticPublisherMC", CFG % (3, ""), "big", 4, 700, False, (), "4g", mod)
    edges = edges_of(gen)
    init = next(s for s, o, d in edges if not s[1] and not any(s[0].values()))
    seqs, covered = tour.tours(edges, init, max_len=150, rng=ctx.rng("tour"))
    with open(ctx.path("script"), "w") as f:
        for ops in seqs:
            f.write("S\nx 0 1\nx 1 2\nx 2 4\n")
            for o in ops:
                if o["e"] == "nbeg":
                    f.write(f"n {o['p']} {r.randint(-1000, 1000)}\n")
                elif o["e"] == "ret":
                    f.write(".\n")
        for k in range(ctx.pick(500, 5000)):
            f.write("S\n")
            for _ in range(ctx.pick(60, 200)):
                x = r.random()
                if x < .2:
                    f.write(f"x {r.randrange(4)} {r.randrange(7)}\n")
                elif x < .27:
                    f.write(f"d {r.randrange(4)}\n")
                elif x < .7:
                    f.write(f"n {r.randrange(4)} {r.randint(-2**31, 2**31 - 1)}\n")
                else:
                    f.write(".\n")
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    side_by_side(ctx.path("script"), ctx.rng("pairs"), lambda w: "")
    run_harness(ctx, exe, ctx.path("script"), tr)
    sessions = split_sessions(tr)
    with open(ctx.path("StaticPublisherTraceMC.tla"), "w") as f:
        f.write("---- MODULE StaticPublisherTraceMC ----\nEXTENDS StaticPublisherTrace\nBnd == << >>\n====")
    vkw = dict(files=[ctx.path("StaticPublisherTraceMC.tla")])
    consts = "CONSTANTS\n MBound <- Bnd\n MDepth = 0\n"
    bad = validate(ctx, "StaticPublisherTraceMC", sessions, consts, **vkw)
    big.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:8]], [json.loads(x) for x in sessions[-1][-8:]]]
    if bad:
        report_violation(ctx, "compile-time publisher", "StaticPublisherTraceMC", bad, consts, vkw=vkw)


check("O05")(static_publisher)
