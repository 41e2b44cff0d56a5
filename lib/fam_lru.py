import json
from core import *
import tour
import many
from families import check

CFG = """SPECIFICATION MSpec
CONSTANTS
 MCap = %d
 MExp = %d
 MKeys = {%s}
 MVals = {%s}
 MMaxAge = %d
VIEW %s
%s
INVARIANTS CapacityKept
PROPERTIES ValueYoung EvictsLru AgesKept
CHECK_DEADLOCK FALSE
"""


def cfg(cap, exp, keys, vals, emit, timed=True):
    return CFG % (cap, exp, ",".join(map(str, range(keys))), ",".join(map(str, range(vals))), exp + 1,
                  "View", "ACTION_CONSTRAINT Emit" if emit else "")


YEARS = (60 * 365 * 86400, 0)
NEVER = ("max", 0)


def lru(ctx):
    P, q = ctx.prop, ctx.quick
    build_f = ctx.pool.submit(build, ctx, "lru.cpp", asan=True, opt="-O0", optional=("NO_LRU",))
    r = ctx.rng("rand")
    thousands = many.start(ctx, ["l"]) if P == "L01" else None
    gen = model_check(ctx, "Lru", cfg(2, 2, 3, 2, True), tag="gen", workers=1)
    big = ctx.pool.submit(model_check, ctx, "Lru", cfg(3, 2, 4, 2, False) if q else cfg(4, 2, 5, 2, False), "big", 4, 750, not q, (), "8g")
    edges = edges_of(gen)
    init = next(s for s, o, d in edges if not s[0])
    seqs, covered = tour.tours(edges, init, max_len=150, limit=ctx.pick(1200, None), rng=ctx.rng("tour"))
    exps = [(0, 0), (0, 1), (0, 1000), (1, 0), (2, 999999999), (3600, 0), YEARS, NEVER]
    with open(ctx.path("script"), "w") as f:
        for n, ops in enumerate(seqs):
            # a scaled tick of the model: two ticks make the expiry period
            xs, xn, ts, tn = r.choice([(2, 0, 1, 0), (0, 2, 0, 1), (3, 0, 1, 500000000)])
            f.write(f"S {r.choice('isvb')} 2 {n % 2} {xs} {xn}\n")
            for o in ops:
                if o["e"] == "put":
                    f.write(f"p {o['k']} {o['v'] + 10 * r.randrange(9)}\n")
                elif o["e"] == "get":
                    f.write(f"g {o['k']}\n")
                else:
                    f.write(f"t {ts} {tn}\n")
                if r.random() < .1:
                    f.write(f"w {r.randint(-1000000, 1000000)}\n")
        for k in range(ctx.pick(700, 7000)):
            cap = r.choice([1, 2, 3, 5, 8, 32])
            xs, xn = r.choice(exps if P == "L02" else exps[3:] + [YEARS] * 3)
            f.write(f"S {r.choice('isvb')} {cap} {r.randrange(2)} {xs} {xn}\n")
            nk = max(1, cap + r.choice([-1, 0, 1, 1, 2, 5, cap]))
            for _ in range(ctx.pick(80, 250)):
                x = r.random()
                if x < .4:
                    f.write(f"p {r.randrange(nk)} {r.randrange(1000)}\n")
                elif x < .85:
                    f.write(f"g {r.randrange(nk)}\n")
                    if r.random() < .05:
                        f.write("e\n")
                elif x < .96:
                    if r.random() < .5 or (xs, xn) in (YEARS, NEVER):
                        f.write(f"t {r.choice([0, 1, 2, 2 if xs != 'max' else 3 * 10**7])} {r.randrange(1000)}\n")
                    else:   # aim at the boundary
                        tot = xs * 10**9 + xn
                        if r.random() < .15:    # where an age kept in a narrow integer would start again
                            tot = r.choice([2**32, 2**31 * 10**3, 2**32 * 10**3, 2**31 * 10**6, 2**32 * 10**6, 2**16 * 10**9, 2**15 * 10**9, 2**16 * 10**6])
                        d = max(0, r.choice([tot, tot - 1, tot // 2, tot - tot // 2, tot // 2 - 1, 1, 2 * tot]))
                        f.write(f"t {d // 10**9} {d % 10**9}\n")
                else:
                    f.write(f"w {r.randint(-10**8, 10**8)}\n")
        for t in "isvb":      # a large cache, filled several times over
            xs, xn = r.choice([(1000, 0), YEARS, NEVER])
            f.write(f"S {t} 300 1 {xs} {xn}\n")
            order = list(range(ctx.pick(330, 900)))
            for _ in range(ctx.pick(2, 6)):
                r.shuffle(order)
                for k in order:
                    f.write(f"p {k} {r.randrange(1000)}\n" if r.random() < .7 else f"g {k}\n")
                    if r.random() < .02:
                        f.write("t 1 5\n")
            for k in order:
                f.write(f"g {k}\n")
    side_by_side(ctx.path("script"), r, lambda w: w[1:4])
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    run_harness(ctx, exe, ctx.path("script"), tr)
    sessions = split_sessions(tr)
    consts = f'CONSTANTS\n Prop = "{P}"\n MCap = 0\n MExp = 0\n MKeys = {{}}\n MVals = {{}}\n MMaxAge = 0\n'
    bad = validate(ctx, "LruTrace", sessions, consts)
    big.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:8]], [json.loads(x) for x in sessions[-1][-8:]]]
    if bad:
        report_violation(ctx, "lru cache", "LruTrace", bad, consts)
    if thousands:
        many.finish(ctx, thousands, "lru cache")


check("L01", "L02")(lru)
