"""Histories with tens of thousands of members, for the checks of publishers, values, mediator and cache."""
import json
from core import *

CAP = 65600
CFG = """SPECIFICATION MSpec
CONSTANTS
 MIds = {%s}
 MCaps = {%s}
INVARIANTS Bounded Iterated
CHECK_DEADLOCK FALSE
"""
CONSTS = "CONSTANTS\n MIds = {}\n MCaps = {}\n"


def script(r, kind):
    top = CAP + r.randint(100, 400)
    s = [f"S {kind} {top + 1}"]
    x = r.randrange(top - 1000)
    if kind == "l":
        s += [f"p 0 {CAP - 1}", f"g 0 {top} 1", f"g 0 {top} {r.randint(2, 9)}", f"p {x} {x + 500}", f"p {CAP - 50} {top}",
              f"g 0 {top} 1", f"p 0 {r.randrange(3000)}", f"g {x} {top} 3", f"g 0 {top} 1"]
        return s
    part = r.choice([1000, 4100, 33000])
    s += [f"a 0 {part}", "n", f"a {part + 1} {CAP - 1}", "n", f"a {CAP - 10} {top}", "n", f"r {x} {top} {r.randint(97, 300)}", "n",
          f"a 0 {top}", "n"]
    if kind != "m":
        s += ["c", "n", f"a {x} {x + 9}", "n"]
    return s


def start(ctx, kinds):
    """model check and record, in the background; finish() judges"""
    q = ctx.quick
    jobs = [ctx.pool.submit(model_check, ctx, "Many", CFG % (("0,1,2,3", "0,2,3") if q else ("0,1,2,3,4,5", "0,1,2,3,5")), "many-model", 2, 600)]

    def record(kind):
        exe = build(ctx, "many.cpp", out="many_" + kind, defs=("MANY_" + kind,), opt="-O2")
        f = ctx.path("many_" + kind)
        r = ctx.rng("many" + kind)
        with open(f + ".script", "w") as o:
            for _ in range(1 if q else 4):
                o.write("\n".join(script(r, kind)) + "\n")
        run_harness(ctx, exe, f + ".script", f + ".ndjson", timeout=800)
        sessions = split_sessions(f + ".ndjson")
        return sessions, validate(ctx, "ManyTrace", sessions, CONSTS, tag="many-" + kind, shards=1, heap="4g", direct=True)
    return jobs, [ctx.pool.submit(record, k) for k in kinds]


def finish(ctx, started, what):
    jobs, recs = started
    for j in jobs:
        j.result()
    for j in recs:
        sessions, bad = j.result()
        ctx.cov["traces_validated_against_impl"] = ctx.cov.get("traces_validated_against_impl", 0) + len(sessions)
        ctx.cov["events_validated"] = ctx.cov.get("events_validated", 0) + sum(map(len, sessions))
        if bad:
            report_violation(ctx, what, "ManyTrace", bad, CONSTS)
