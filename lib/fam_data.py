import json
import tour
from core import *
from families import check

MC = """SPECIFICATION Spec
CONSTANTS Base = %d Widths = {%s}
VIEW View
INVARIANTS Consistent Numeric Order SwapTwice Neighbours
CHECK_DEADLOCK FALSE
"""


def value(r, w):
    n = 8 * w
    x = r.random()
    if x < .15:
        return r.choice([0, 1, 255, 256, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, 0x0102030405060708 & ((1 << n) - 1)])
    if x < .4:
        return sum(r.choice([0, 0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) << (8 * i) for i in range(w))
    return r.randrange(1 << n)


def near(r, w, v):
    m = (1 << (8 * w)) - 1
    x = r.random()
    if x < .2:
        return v
    if x < .4:
        return (v + r.choice([-1, 1])) & m
    if x < .6:
        return v ^ (1 << r.randrange(8 * w))
    if x < .75:
        return int.from_bytes(v.to_bytes(w, "big"), "little")
    return value(r, w)


BMC = """SPECIFICATION Spec
CONSTANTS Size = %d Base = %d Widths = {%s}
VIEW View
%s
INVARIANT TurnTwice
PROPERTIES RoundTrip Beside Reading
CHECK_DEADLOCK FALSE
"""
BC = "CONSTANTS Size = 0 Base = 0 Widths = {}"
WIDTHS = [1, 2, 3, 4, 7, 8, 18, 37, 200, 700]


def buffers(ctx):
    """B02: objects in a buffer"""
    q = ctx.quick
    gen = model_check(ctx, "Buffer", BMC % (4, 2, "1,2,4", "ACTION_CONSTRAINT Emit"), "bgen", 1)
    j = ctx.pool.submit(model_check, ctx, "Buffer", BMC % ((6, 2, "1,2,3,4", "") if q else (5, 3, "1,2,3,4", "")), "bmc", 2)
    seqs, covered = tour.tours(edges_of(gen), [0] * 4, max_len=150, rng=ctx.rng("bt"))
    ctx.cov["model_transitions_replayed"] = covered
    r = ctx.rng("b")
    kinds = "vpadirc"
    out = []
    for t in seqs:
        m = r.choice([(0, 0xff), (0x80, 0x7f), (0x0d, 0x0a), (0, 1)])
        h = lambda o: "".join(f"{m[x]:02x}" for x in o)
        s = [f"S b {r.choice(kinds)} {r.choice([0, 509, 510, 511, 512])} {h([0] * 4)}"]
        for o in t:
            if o["e"] == "write":
                s.append(f"w {o['at']} {h(o['obj'])}")
            elif o["e"] == "move":
                s.append(f"m {o['at']} {o['to']} {o['w']}")
            else:
                s.append(f"{o['e'][0]} {o['at']} {o['w']}")
        out.append(s)
    for i in range(ctx.pick(120, 2500)):
        n = r.choice([1, 2, 5, 8, 24, 60, 60, 60, 900 if i % 10 == 0 else 40])
        by = lambda w: "".join(f"{r.choice([0, 0xff, 0x80, r.randrange(256)]):02x}" for _ in range(w))
        s = [f"S b {r.choice(kinds)} {r.choice([0, 1, 500, 508, 511, r.randrange(1200)])} {by(n)}"]
        fit = [w for w in WIDTHS if w <= n]
        for _ in range(r.randint(5, 40 if n < 100 else 12)):
            w = r.choice(fit)
            at, to = (r.choice([0, n - w, r.randint(0, n - w)]) for _ in "ab")
            x = r.random()
            if x < .4:
                s.append(f"w {at} {by(w)}")
            elif x < .7:
                s.append(f"r {at} {w}")
            elif x < .85 and w in (2, 4, 8):
                s.append(f"t {at} {w}")
            else:
                s.append(f"m {at} {to} {w}")
        out.append(s)
    return out, j


@check("B01", "B02")
def data(ctx):
    q, P = ctx.quick, ctx.prop
    bf = ctx.pool.submit(build, ctx, "data.cpp", asan=True, opt="-O0", optional=("NO_ITERATORS",))
    b2 = ctx.pool.submit(build, ctx, "data.cpp", out="data2", opt="-O2", optional=("NO_ITERATORS",))
    j = ctx.pool.submit(model_check, ctx, "Bytes", MC % ((4, "1,2,3") if q else (6, "1,2,3")), "mc", 2)
    r = ctx.rng("s")
    sess = []
    if P == "B01":
        for w in (2, 4, 8):
            for k in "lm":
                # every byte alone and every pair of bytes
                base = [1 << (8 * i) for i in range(w)] + [0xff << (8 * i) for i in range(w)] + [0x80 << (8 * i) for i in range(w)]
                s = [f"S {k} {w}", "n d"]
                for v in base + [0]:
                    s += [f"n {r.choice('vrmci')} {v:x}", f"o {v:0{2 * w}x}", f"a {v:x}"] + [f"c {o:x}" for o in r.sample(base, 4)] + [f"c {v:x}", f"c {v:x} p"]
                sess.append(s)
                for _ in range(ctx.pick(40, 800)):
                    s = [f"S {k} {w}"]
                    v = value(r, w)
                    s.append(f"n {r.choice('vrmci')} {v:x}")
                    for _ in range(r.randint(3, 20)):
                        x = r.random()
                        if x < .15:
                            v = value(r, w)
                            s.append(f"n {r.choice('vrmci')} {v:x}")
                        elif x < .35:
                            v = near(r, w, v)
                            s.append(f"a {v:x}" + r.choice(["", " w"]))
                        elif x < .55:
                            o = value(r, w)
                            s.append(f"o {o:0{2 * w}x}")
                            v = o if k == "m" else int.from_bytes(o.to_bytes(w, "big"), "little")
                        else:
                            s.append(f"c {near(r, w, v):x}" + r.choice(["", " p"]))
                    sess.append(s)
    else:
        for k in range(ctx.pick(60, 1500)):
            s = ["S d"]
            for _ in range(12):
                w = r.choice([2, 4, 8])
                s.append(f"s {value(r, w):0{2 * w}x}")
            for _ in range(2):
                s.append(f"t {r.randrange(10)} {r.randrange(1 << 30)}")
            sess.append(s)
        s = ["S d"]
        for w in (2, 4, 8):
            for i in range(w):
                s += [f"s {b << (8 * i):0{2 * w}x}" for b in (1, 0x80, 0xff, 0xa5)]
        sess.append(s)
    boxes, j2 = ([], j) if P == "B01" else buffers(ctx)
    open(ctx.path("script"), "w").write("\n".join("\n".join(s) for s in sess) + "\n")
    open(ctx.path("bscript"), "w").write("\n".join("\n".join(s) for s in boxes) + "\n")
    sessions, more = [], []
    for i, exe in enumerate((bf.result(), b2.result())):
        if boxes:
            tr = ctx.path(f"btrace{i}.ndjson")
            run_harness(ctx, exe, ctx.path("bscript"), tr, timeout=600)
            more += split_sessions(tr)
        tr = ctx.path(f"trace{i}.ndjson")
        run_harness(ctx, exe, ctx.path("script"), tr, timeout=600)
        sessions += split_sessions(tr)
    c = f'CONSTANTS Base = 0 Widths = {{}} Prop = "{P}"'
    bad = validate(ctx, "BytesTrace", sessions, c, shards=NCPU)
    worse = validate(ctx, "BufferTrace", more, BC, tag="vb", shards=NCPU) if more else None
    j.result()
    j2.result()
    ctx.cov["traces_validated_against_impl"] = len(sessions) + len(more)
    ctx.cov["events_validated"] = sum(map(len, sessions)) + sum(map(len, more))
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:6]] for k in (0, -1)]
    if bad:
        report_violation(ctx, "byte order" if P == "B01" else "serialisation", "BytesTrace", bad, c)
    if worse:
        report_violation(ctx, "buffer of serialised objects", "BufferTrace", worse, BC)
