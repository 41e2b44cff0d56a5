import json
from core import *
import tour
from families import check

TINY = [3, 8, 16, 24, 32, 40]
SIZES = [48, 64, 72, 100, 128, 144, 160, 161, 176, 192, 200, 208, 240, 256, 263, 320, 511, 512, 1000, 1024, 4096, 4099, 65536]
HUGE = [2**64 - 1, 2**64 - 2, 2**64 - 8, 2**64 - 15, 2**64 - 16, 2**64 - 17, 2**64 - 23, 2**64 - 24, 2**63, 2**63 - 1,
        2**63 - 16, 2**63 - 8, 2**63 + 16, 2**62, 2**32, 2**32 + 8, 2**31]


def random_session(r, n):
    size = r.choice(SIZES)
    cap = (size - 16) // 8 * 8
    lines = [f"S {size}", "t", f"h {r.randint(0, 3) and 1}"]
    style = r.randint(0, 5)
    live = 0
    freed = False
    for _ in range(n):
        x = r.random()
        if x < 0.04:
            lines.append(r.choice(["t", "t", "r", "n", "h 0", "h 1", "h 1", f"h 2 {r.randint(0, 99)}", f"h 3 {r.randint(0, 40)}", "h 4"]))
            continue
        if freed and x < 0.10:
            lines.append("d")
            freed = False
            continue
        freed = False
        fill = 0.55 if style < 3 else 0.7 if style < 5 else 0.35
        if x < 0.10:
            lines.append(f"a {r.choice(HUGE + [0, 0, cap, cap - 15, cap - 16, cap - 17, cap + 1, cap - 24, cap - 48])}")
        elif x < 0.12:
            a = r.choice([2**63, 2**33, 2**60, 3, 2**62, 0])
            b = r.choice([2, 2**31, 16, 4, 2**62, 0, 6148914691236517206])
            lines.append(f"c {a} {b}")
        elif r.random() < fill:
            if style in (0, 3):
                q = r.randint(1, 40)
            elif style in (1, 4):
                q = r.choice([1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 64])
            else:
                q = int(min(cap, max(1, r.expovariate(1 / (cap / 6 + 1)))))
            if r.random() < 0.15:
                d = r.choice([1, 1, 2, 3, 4])
                lines.append(f"c {d} {max(1, q // d)}")
            else:
                lines.append(f"a {q}")
            live += 1
        else:
            lines.append(f"f {r.choice([0, 0, 1, 2, 10**6 + 7, r.randint(0, 1000)])}")
            freed = True
    lines += ["t", "k", "x", "t", f"a {cap - 16}", "f 0"]
    return lines


def tiny_session(r, size):
    ops = ["t", "a 1", "a 8", "a 9", "c 1 1", "r", "n", "f 0", "y 3 1", "a 0", f"a {2**64 - 1}", f"a {size}", "x"]
    return [f"S {size}", "t", "h 1"] + [r.choice(ops) for _ in range(25)] + ["x", "t"]


def large_session(r, n):
    """Many blocks in a large heap, and many more operations than a narrow counter holds."""
    lines = ["S 300000", "h 1", "y 2 299968"] + [f"a {int(r.expovariate(1 / 500)) + 1}" for _ in range(n)]
    lines += ["t", "y 70000 40", "t", "y 70000 299000", "t"]
    lines += ["c 70000 1", "c 3 30000", "t"]
    lines += [f"a {r.choice([1, 8, 24, 30])}" for _ in range(560)]
    lines += [f"f {k}" for k in range((n + 560) // 2 - 5)] + ["t"]     # every second one: hundreds of separate free blocks
    for _ in range(n):
        lines.append(f"f {r.randint(0, 10**6)}" if r.random() < 0.6 else f"a {int(r.expovariate(1 / 400)) + 1}")
    return lines + ["t", "y 9 70000", "a 70000", "x", "t", "y 5 299984", "a 299968", "t", "x", "c 29000 10", "t", "x", "t"]


MODEL_REQS = "{0, 1, 17, 33, 48, 500}"


def heap(ctx):
    q = ctx.quick
    build_f = ctx.pool.submit(build, ctx, "heap.cpp", asan=True, optional=("NO_STATS",))
    # 1. exhaustive bounded model (invariants + refinement of the abstract allocator) and its transitions
    msize = 184 if q else 264
    cfg = f"""SPECIFICATION MSpec
CONSTANTS
 MSize = {msize}
 MReqs = {MODEL_REQS}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS LayoutOK Coalesced LiveOK Accounting AllFreeIsWhole
PROPERTY AbsSpec
CHECK_DEADLOCK FALSE
"""
    # replayed graph: an arena the harness instantiates
    rsize = 160 if q else 200
    gen = model_check(ctx, "StaticHeap", cfg.replace(f"MSize = {msize}", f"MSize = {rsize}"), tag="gen", workers=4)
    edges = edges_of(gen)
    cfg2 = cfg.replace("ACTION_CONSTRAINT Emit\n", "")
    mc_f = ctx.pool.submit(model_check, ctx, "StaticHeap", cfg2, "big", 4, 700 if not q else 120, True)
    # heaps and requests of any size, up to K blocks
    ind_f = inductive(ctx, "HeapInd", ["CInit4"] if q else ["CInit3", "CInit4", "CInit5", "CInit6"], "IndInv", ["Props"], ["CBroken"])
    init = next(s for s, o, d in edges if len(s[0]) == 1 and not s[0][0]["used"] and s[2] == s[0][0]["size"])
    seqs, covered = tour.tours(edges, init, max_len=120, rng=ctx.rng("tour"))
    script = ctx.path("script")
    n_rand = ctx.pick(260, 2500)
    with open(script, "w") as f:
        for ops in seqs:
            f.write(f"S {rsize}\nh 1\n")
            for o in ops:
                f.write({"alloc": lambda: f"a {o['req']}", "free": lambda: f"o {o['off']}", "reset": lambda: "r"}[o["e"]]() + "\n")
            f.write("t\nx\nt\n")
        r = ctx.rng("rand")
        for k in range(n_rand):
            f.write("\n".join(random_session(r, ctx.pick(110, 400) if k % 5 else ctx.pick(300, 1500))) + "\n")
        for size in TINY:
            for _ in range(ctx.pick(2, 10)):
                f.write("\n".join(tiny_session(r, size)) + "\n")
        for _ in range(ctx.pick(1, 10)):
            f.write("\n".join(large_session(r, ctx.pick(150, 250))) + "\n")
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    side_by_side(script, ctx.rng("pairs"), lambda w: w[1])
    run_harness(ctx, exe, script, tr)
    sessions = split_sessions(tr)
    consts = f'CONSTANTS\n Prop = "{ctx.prop}"\n MSize = 0\n MReqs = {{}}\n'
    bad = validate(ctx, "HeapTrace", sessions, consts)
    mc_f.result()
    ind_f.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:8]], [json.loads(x) for x in sessions[-1][-6:]]]
    ctx.assumptions += ["request sizes above 2^31 are logged as 2^31-1 (no heap instance is that large)",
                        "heap sizes instantiated: " + ",".join(map(str, TINY + SIZES + [300000]))]
    if bad:
        report_violation(ctx, "heap", "HeapTrace", bad, consts)


check("H01", "H02", "H03")(heap)
