import json
from core import *
import tour
import many
from families import check

CFG = """SPECIFICATION MSpec
CONSTANTS
 MKind = "%s"
 MCap = %d
 MPubs = {%s}
 MObs = {%s}
 MDepth = %d
 MNested = {%s}
VIEW View
%s
INVARIANTS TypeOK TodoRegistered OneDeliveryIfFixed QuietWhenIdle
PROPERTY OrderKept
CHECK_DEADLOCK FALSE
"""


def cfg(kind, cap, pubs, obs, depth, nested, emit):
    return CFG % (kind, cap, ",".join(map(str, range(pubs))), ",".join(map(str, range(obs))), depth,
                  ",".join(f'"{x}"' for x in nested), "ACTION_CONSTRAINT Emit" if emit else "")


LETTER = dict(add="a", rem="m", notify="n", clear="c")


def script_of(ops, kind, r):
    out = []
    for o in ops:
        p = o.get("p")
        e = o["e"]
        if e in ("add", "rem"):
            out.append(f"{'a' if e == 'add' else 'm'} {p} {o['o']}")
        elif e == "nbeg":
            out.append(f"n {p} {r.randint(0, 99)}" if kind[0] == "o" else f"u {p} set {r.randint(0, 99)}")
        elif e == "cbeg":
            out.append(f"c {p}")
        elif e == "ret":
            out.append(".")
    return out


def rand_session(r, kind, n, nested, types, weights):
    cap = r.choice([1, 2, 3, 8, 8]) if kind == "os" else r.choice([1, 3, 8]) if kind == "vs" else 0
    pubs = r.choice([1, 2, 2, 3])
    obs = r.choice([2, 4, 6, 12]) if cap != 8 else r.choice([4, 10, 12])
    typ = r.choice(types)
    out = [f"S {kind} {cap} {pubs} {obs} {typ} {nested}"]
    acts = []
    for k, w in weights.items():
        acts += [k] * w
    for _ in range(n):
        if nested and r.random() < 0.45:
            out.append(".")
            continue
        a = r.choice(acts)
        p = r.randrange(pubs)
        if a in "am":
            out.append(f"{a} {p} {r.randrange(obs)}")
        elif a == "n" and kind[0] == "o":
            out.append(f"n {p} {r.randint(0, 1000)}")
        elif a in "nu":
            op = r.choice(["set", "preinc", "postinc", "predec", "postdec", "add", "sub"])
            v = r.choice([0, 1, 2, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 7,
                          2**63, 2**63 - 1, 2**64 - 1, 2**64 - 5, r.getrandbits(64), r.getrandbits(16)])
            if "i" in types[0] and len(types) == 1:
                v = r.randint(0, 100)    # keep clear of signed overflow
            if typ[0] == "f":    # keep clear of rounding
                v = r.randint(-2000, 2000) % 2**64
            out.append(f"u {p} {op} {v}")
        elif a == "f":
            out.append(f"f {p} {r.randrange(obs)} {r.choice([0, 1, 2, 3])}")
        else:
            out.append(f"{a} {p}")
    return out


def large(r, kind, obs, letters):
    """Far more observers than any counter or limit that is too small."""
    cap = 300 if kind in ("os", "vs") else 0
    out = [f"S {kind} {cap} 2 {obs} i32 {letters}"]
    note = lambda: out.append(f"n 0 {r.randint(0, 99)}" if kind[0] == "o" else f"u 0 {r.choice(['set', 'add', 'preinc'])} {r.randint(0, 99)}")
    order = list(range(obs))
    r.shuffle(order)
    out += [f"a 0 {o}" for o in order[:obs // 2]]
    out += [f"k 1 {r.randrange(obs)} 300", f"k 0 {order[-1]} {65536 - obs // 2 - 20}"]
    note()
    out += [f"a 0 {o}" for o in order[obs // 2:]] + [f"a 0 {o}" for o in r.sample(order, 5)]
    note()
    gone = r.sample(order, obs // 3)
    out += [f"m 0 {o}" for o in gone] + [f"m 0 {o}" for o in gone[:5]]
    note()
    out += [f"a 0 {o}" for o in gone]
    note()
    out += [f"a 1 {o}" for o in order[:40]]
    out.append("c 0")
    note()
    out += [f"a 0 {order[0]}"]
    note()
    return out


IMPL = """SPECIFICATION Spec
CONSTANTS Kind = "%s" Cap = 2 Obs = {%s} Depth = %d MaxOrder = %d ByNumber = %s Nested = {%s}
INVARIANT Sorted
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""


def impl_models(ctx):
    """the walk over a list that callbacks change refines Publisher; without the numbers it does not"""
    q = ctx.quick
    nested = '"add","rem","notify"' if ctx.prop == "O03" else '"add","rem","clear","notify"'
    runs = [("od", "1,2,3", 2, 3 if q else 5), ("os", "1,2,3", 2, 4 if q else 5)]
    if not q:
        runs += [("od", "1,2,3", 3, 3), ("os", "1,2,3", 3, 4), ("vs", "1,2,3", 2, 5)]
    j = [ctx.pool.submit(model_check, ctx, "PublisherImpl", IMPL % (k, o, d, m, "TRUE", nested), f"impl{i}", 3, 900)
         for i, (k, o, d, m) in enumerate(runs)]

    return j + [ctx.pool.submit(must_fail, ctx, "PublisherImpl", IMPL % ("od", "1,2,3", 2, 3, "FALSE", nested), "broken", 2, 300)]


def publisher(ctx):
    P, q = ctx.prop, ctx.quick
    kinds = dict(O01=["os"], O02=["od"], O03=["os", "od", "vs", "vd"], O04=["os", "od", "vs", "vd"], V01=["vs", "vd"], V02=["vs", "vd"])[P]
    nested = dict(O01=["notify"], O02=["notify"], O03=["add", "rem", "clear", "notify"], O04=["clear"], V01=[], V02=[])[P]
    defs = []
    if any(k[0] == "o" for k in kinds):
        defs.append("WITH_PUB")
    if any(k[0] == "v" for k in kinds):
        defs.append("WITH_VAL")
    if P == "V01":
        defs.append("ALL_TYPES")
    else:
        defs.append("LARGE")
    build_f = ctx.pool.submit(build, ctx, "publisher.cpp", asan=True, defs=defs, opt="-O0", optional=("NO_PAIR",))
    r = ctx.rng("rand")
    script = ctx.path("script")
    covered = 0
    thousands = many.start(ctx, kinds) if P in ("O01", "O02", "V02") else None
    big = impl_models(ctx) if P in ("O03", "O04") else []
    with open(script, "w") as f:
        for kind in kinds:
            nst = [x for x in nested if not (kind[0] == "v" and x == "notify")]
            letters = "".join(LETTER[x] for x in nst) + ("u" if P in ("O03", "V01") and kind[0] == "v" else "")
            bounded = kind in ("os", "vs")
            if P == "O03":
                gen_a = (kind, 2 if bounded else 0, 1, 2 if q else 3, 2, nst)
                big_a = (kind, 3 if bounded else 0, 1, 3, 2 if q else 3, nst)
            elif P in ("O01", "O02"):
                gen_a = (kind, 2 if bounded else 0, 1, 3, 2, nst)
                big_a = (kind, 2 if bounded else 0, 2, 3 if bounded else 2, 3, nst)
            else:
                d = 2 if P == "O04" else 1
                gen_a = (kind, 2 if bounded else 0, 2 if P == "V02" or not q else 1, 2, d, nst)
                big_a = (kind, 2 if bounded else 0, 2, 3 if d == 1 or not q else 2, d, nst)
            gen = model_check(ctx, "Publisher", cfg(*gen_a, True), tag="gen-" + kind, workers=4)
            big.append(ctx.pool.submit(model_check, ctx, "Publisher", cfg(*big_a, False), "big-" + kind, 4, 700, not q))
            edges = edges_of(gen)
            init = next(s for s, o, d in edges if not s[2] and not any(s[0].values()) and not any(s[1].values()))
            seqs, c = tour.tours(edges, init, max_len=150, limit=ctx.pick(500, None), rng=ctx.rng("tour" + kind))
            covered += c
            # the smallest capacity the harness offers that the model's fits
            cap = {"os": 2, "vs": 3, "od": 0, "vd": 0}[kind]
            for ops in seqs:
                f.write(f"S {kind} {cap} {gen_a[2]} {gen_a[3]} i32 {letters}\n")
                f.write("\n".join(script_of(ops, kind, r)) + "\n")
            w = dict(a=6, m=3, n=5, c=1, d=1, x=1)
            if P == "O04":
                w = dict(a=8, m=2, n=2, c=3, d=2, x=3)
            if P in ("V01", "V02"):
                w["f"] = 2
            types = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "pair"] if P == "V01" else ["i32"]
            n = ctx.pick(300, 3000) // len(kinds)
            for k in range(n):
                # changes inside deliveries count for the delivery properties too
                nl = "amcn" if P in ("O01", "O02", "O04") and k % 2 else letters
                f.write("\n".join(rand_session(r, kind, ctx.pick(70, 200), nl, types, w)) + "\n")
            for obs in ctx.pick([320], [320, 1100, 5000] if kind in ("od", "vd") else [320, 320]):
                if P != "V01":
                    f.write("\n".join(large(r, kind, obs, "")) + "\n")
            if P == "V01":    # signed types without overflow: small steps
                for k in range(n // 2):
                    f.write("\n".join(rand_session(r, kind, ctx.pick(70, 200), letters, ["i32"], w)) + "\n")
    exe = build_f.result()
    tr = ctx.path("trace.ndjson")
    side_by_side(script, ctx.rng("pairs"), lambda w: (w[1:3], w[5]))
    run_harness(ctx, exe, script, tr)
    sessions = split_sessions(tr)
    consts = f'CONSTANTS\n Prop = "{P}"\n MKind = "os"\n MCap = 0\n MPubs = {{}}\n MObs = {{}}\n MDepth = 0\n MNested = {{}}\n'
    bad = validate(ctx, "PublisherTrace", sessions, consts)
    for b in big:
        b.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_transitions_replayed"] = covered
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[0][:8]], [json.loads(x) for x in sessions[-1][-8:]]]
    if bad:
        report_violation(ctx, "publisher", "PublisherTrace", bad, consts)
    if thousands:
        many.finish(ctx, thousands, "publisher")


check("O01", "O02", "O03", "O04", "V01", "V02")(publisher)
