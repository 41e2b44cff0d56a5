import json
from core import *
import tour
from families import check

NAMES = list(range(12))
OPS = ["pb"] * 6 + ["ppb", "pf", "pf", "ppf", "inn", "inn", "inn", "era", "era", "rsz", "rsv", "shr", "clr", "swp", "mov", "cpy",
       "spl", "spl", "srt", "rev", "put", "put", "put", "ins", "del", "del", "add", "add"]


def rand_session(r, n, roomy):
    size = 32768 if roomy else r.choice([256, 256, 400, 400, 1024, 1024, 4096])
    lines = [f"S {size} {1 if roomy else 0}", "q"]
    conts = r.sample([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11] + ([6] if size >= 4096 else []), r.randint(2, 9))
    grow = 0
    for c in conts:
        lines.append(f"n {c}")
    for _ in range(n):
        x = r.random()
        if x < 0.06 and not roomy or x < 0.01:
            lines.append(f"A {r.randint(0, 5)} {r.randint(0, 2)} " + str(r.choice(
                [0, 1, 2, 3, 7, 16, 40, 100, 2**62, 2**62 + 1, 2**63, 2**61, 2**64 - 1, 461168601842738791, 461168601842738790, 2**32, 10**6])))
        elif x < 0.10:
            lines.append(f"F {r.randint(0, 5)}")
        elif x < 0.12:
            lines.append(f"{r.choice('nz')} {r.choice(conts)}")
        elif x < 0.125:
            lines.append("q")
        else:
            op = r.choice(OPS)
            c = r.choice(conts)
            a, b = r.randint(0, 20), r.randint(0, 20)
            if op in ("swp", "mov", "cpy", "spl"):
                b = r.choice(conts)
            elif op in ("rsz", "rsv"):
                a = r.choice([0, 1, 2, 5, 9, 17, 33, r.randint(0, 60)] + [2**62 + 1, 2**61, 10**15] * (r.random() < 0.3))
                if roomy and a < 10**6:
                    a = min(a, 24)
            elif op == "pb" and c == 7:
                a = r.randint(33, 120)
            if roomy:
                grow += op in ("pb", "pf", "inn")
                if grow > 25:
                    grow = 0
                    lines += [f"o clr {c2} 0 0" for c2 in conts]
            lines.append(f"o {op} {c} {a} {b}")
    lines += ["Z"]
    return lines


@check("H04")
def containers(ctx):
    q = ctx.quick
    build_f = ctx.pool.submit(build, ctx, "containers.cpp", asan=True, optional=("NO_XEQ",))
    cfg = """SPECIFICATION MSpec
CONSTANTS
 MVal = %s
 MLen = %d
VIEW View
%s
INVARIANT MapsSorted
PROPERTY Conserved
CHECK_DEADLOCK FALSE
"""
    gen = model_check(ctx, "Containers", cfg % ("{1, 2}", 2, "ACTION_CONSTRAINT Emit"), tag="gen", workers=4)
    big_f = ctx.pool.submit(model_check, ctx, "Containers", cfg % (("{1, 2, 3}", 2, "") if q else ("{1, 2}", 3, "")), "big", 4, 700, not q)
    edges = edges_of(gen)
    seqs, covered = tour.tours(edges, [[], [], [], []], max_len=150, limit=ctx.pick(400, None), rng=ctx.rng("tour"))
    r = ctx.rng("rand")
    script = ctx.path("script")
    with open(script, "w") as f:
        for i, ops in enumerate(seqs):
            roomy = i % 2
            f.write(f"S {32768 if roomy else r.choice([256, 400])} {roomy}\nq\nn 0\nn 2\nn 3\nn 4\n")
            for o in ops:
                f.write(f"o {o['k']} {o['c']} {o['a']} {o['b']}\n")
            f.write("Z\n")
        for k in range(ctx.pick(300, 4000)):
            f.write("\n".join(rand_session(r, ctx.pick(90, 250), k % 3 == 0)) + "\n")
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    side_by_side(script, ctx.rng("pairs"), lambda w: w[1])
    run_harness(ctx, exe, script, tr)
    sessions = split_sessions(tr)
    consts = "CONSTANTS\n MVal = {}\n MLen = 0\n"
    bad = validate(ctx, "ContainersTrace", sessions, consts)
    big_f.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:6]], [json.loads(x) for x in sessions[-1][-4:]]]
    ctx.assumptions += ["operations with the strong exception guarantee in libstdc++; element types int, char and a 40-byte struct"]
    if bad:
        report_violation(ctx, "containers", "ContainersTrace", bad, consts)
