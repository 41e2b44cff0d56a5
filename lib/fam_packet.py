import json
import tour
from core import *
from families import check

MCP = """SPECIFICATION Spec
CONSTANTS MKind = "toy" MH = %d MF = %d MBase = %d
VIEW View
INVARIANTS BuiltIsValid ValidIsBuilt
PROPERTIES Noticed
%s
CHECK_DEADLOCK FALSE
"""
MCF = """SPECIFICATION Spec
CONSTANTS MKind = "toy" MH = 1 MF = 1 MT = %d MCap = %d MBase = %d
VIEW View
INVARIANTS ValidIsSerialised TailFree
PROPERTIES RoundTrip Noticed
%s
CHECK_DEADLOCK FALSE
"""
TP = 'CONSTANTS MKind = "toy" MH = 0 MF = 0 MBase = 0'
TF = 'CONSTANTS MKind = "toy" MH = 0 MF = 0 MT = 1 MCap = 0 MBase = 0'
# combos of harness/packet.cpp: checksum, header, fields (, element, capacity)
PACKETS = [("toy", 1, 1), ("crc16", 2, 2), ("f16m", 2, 22), ("a32l", 1, 16), ("a32m", 5, 7), ("sum8", 7, 1), ("f16l", 1, 8),
           ("q64m", 2, 60), ("f16l", 3, 3), ("sum8", 16, 5), ("f16l", 130, 260)]
FRAMES = [("toy", 1, 1, 1, 5), ("toy", 1, 1, 2, 7), ("crc16", 2, 1, 1, 16), ("f16l", 2, 2, 2, 17), ("a32m", 5, 7, 16, 64),
          ("q64m", 1, 2, 3, 40), ("f16m", 2, 2, 8, 255), ("f16l", 1, 1, 2, 4), ("sum8", 7, 8, 1, 300), ("a32l", 1, 1, 4, 33), ("toy", 1, 1, 2, 6)]


# ---- checksums once more, to make bytes that the code should accept (the verdict is the specification's)
def crc(kind, b):
    if kind == "toy":
        return bytes([(sum(b) + len(b)) % 2])
    if kind == "sum8":
        return bytes([sum((i + 1) * x for i, x in enumerate(b)) & 255])
    if kind in ("f16l", "f16m"):
        x = y = 0
        for v in b:
            x = (x + v) % 255
            y = (y + x) % 255
        return bytes([x, y] if kind == "f16l" else [y, x])
    if kind == "crc16":
        c = 0xffff
        for v in b:
            c ^= v
            for _ in range(8):
                c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
        return bytes([c & 255, c >> 8])
    x, y = 1, 0
    for v in b:
        x = (x + v) % 65521
        y = (y + x) % 65521
    if kind == "a32l":
        return x.to_bytes(2, "little") + y.to_bytes(2, "little")
    X, Y = x.to_bytes(2, "big"), y.to_bytes(2, "big")
    return Y + X if kind == "a32m" else X + Y + Y + X


SIZE = dict(toy=1, sum8=1, f16l=2, f16m=2, crc16=2, a32l=4, a32m=4, q64m=8)


def hx(b):
    return bytes(b).hex() or "-"


def rb(r, n):
    m = r.random()
    if m < .1:
        return bytes(n)
    if m < .2:
        return b"\xff" * n
    if m < .4:
        return bytes(r.choice([0, 0, 1, 0x80, 0xff]) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def spoil(r, b):
    """received bytes: intact, or damaged in one of the ways bytes get damaged"""
    b = bytearray(b)
    n = len(b)
    m = r.random()
    if m < .35 or n == 0:
        return bytes(b)
    if m < .6:
        b[r.choice([0, n - 1, r.randrange(n)])] ^= 1 << r.randrange(8)
    elif m < .7:
        b[r.randrange(n)] = r.randrange(256)
    elif m < .8 and n > 1:
        i = r.randrange(n - 1)
        b[i], b[i + 1] = b[i + 1], b[i]
    elif m < .85:
        return bytes(b[1:]) + bytes([r.randrange(256)])
    elif m < .9:
        b[-1] ^= 0xff
        b[0] ^= 0xff
    else:
        return rb(r, n)
    return bytes(b)


# ------------------------------------------------------------------------ K01
@check("K01")
def packets(ctx):
    q = ctx.quick
    bf = ctx.pool.submit(build, ctx, "packet.cpp", asan=True, opt="-O0")
    b2 = ctx.pool.submit(build, ctx, "packet.cpp", out="packet2", opt="-O2", extra=["-fno-strict-aliasing"])
    gen = ctx.pool.submit(model_check, ctx, "Packet", MCP % (1, 1, 2, "ACTION_CONSTRAINT Emit"), "gen", 1)
    mcs = [ctx.pool.submit(model_check, ctx, "Packet", MCP % a, f"mc{i}", 2)
           for i, a in enumerate([(1, 2, 2, ""), (2, 1, 2, "")] + ([] if q else [(2, 2, 2, ""), (3, 2, 2, "")]))]
    r = ctx.rng("s")
    sess = []
    # every transition of the bounded model, on the real packet with the same checksum
    edges = edges_of(gen.result())
    seqs, covered = tour.tours(edges, [0, 0, 0], max_len=120, rng=ctx.rng("t"))
    ctx.cov["model_transitions_replayed"] = covered
    hows = "aciqdlp"
    for t in seqs:
        s = ["S p 0", "r a 000000"]
        for o in t:
            if o["e"] == "make":
                s += [f"m {hx(o['h'])} {hx(o['f'])}", f"s {hx(o['h'])} {hx(o['f'])}", "w"]
            elif o["e"] == "recv":
                s += [f"r {r.choice(hows)} {hx(o['b'])}", f"t - {hx(o['b'])}"]
            else:
                s += [f"k {o['i']} {o['b']}"]
        sess.append(s)
    for c, (kind, h, f) in enumerate(PACKETS):
        n = h + f + SIZE[kind]
        for _ in range(ctx.pick(12, 300)):
            s = [f"S p {c}"]
            last = None
            for _ in range(10):
                x = r.random()
                if x < .3 or last is None:
                    H, F = rb(r, h), rb(r, f)
                    s += [f"m {hx(H)} {hx(F)}", f"s {hx(H)} {hx(F)}", "w"]
                    last = H + F + crc(kind, H + F)
                elif x < .6:
                    last = spoil(r, last if r.random() < .5 else (lambda B: B + crc(kind, B))(rb(r, h + f)))
                    s += [f"r {r.choice(hows)} {hx(last)}", "w"]
                elif x < .8:
                    i = r.choice([0, n - 1, h - 1, h, h + f - 1, h + f, r.randrange(n)])
                    b = bytearray(last)
                    b[i] = r.choice([b[i], b[i] ^ 1, r.randrange(256)])
                    last = bytes(b)
                    s += [f"k {i + 1} {last[i]}"]
                    if r.random() < .5:    # repair the checksum, byte by byte
                        C = crc(kind, last[:h + f])
                        for k, v in enumerate(C):
                            s.append(f"k {h + f + k + 1} {v}")
                        last = last[:h + f] + C
                    s.append("w")
                else:
                    b = spoil(r, last)
                    s.append(f"t - {hx(b + rb(r, r.choice([0, 1, 9])))}")
            sess.append(s)
        # every single bit of one packet
        B = rb(r, h + f)
        B += crc(kind, B)
        s = [f"S p {c}", f"r a {hx(B)}"]
        for i in range(n):
            for k in range(8) if n < 24 or not q else (0, 7):
                b = bytearray(B)
                b[i] ^= 1 << k
                s.append(f"{r.choice(['r ' + r.choice(hows), 't -'])} {hx(b)}")
        sess.append(s)
    run_all(ctx, sess, (bf, b2), "PacketTrace", TP, "packet")
    for m in mcs:
        m.result()


def run_all(ctx, sess, builds, module, consts, what, tours=0):
    sessions = []
    for i, b in enumerate(builds):
        tr, sc = ctx.path(f"trace{i}.ndjson"), ctx.path(f"script{i}")
        # the optimised build runs what is not a replay of the bounded model
        open(sc, "w").write("\n".join("\n".join(s) for s in sess[tours if i else 0:]) + "\n")
        side_by_side(sc, ctx.rng("pairs"), lambda w: w[1:3])
        run_harness(ctx, b.result(), sc, tr, timeout=600)
        sessions += split_sessions(tr)
    bad = validate(ctx, module, sessions, consts, shards=NCPU)
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:5]] for k in (0, -1)]
    if bad:
        report_violation(ctx, what, module, bad, consts)


# ------------------------------------------------------------------------ K02
@check("K02")
def frames(ctx):
    q = ctx.quick
    bf = ctx.pool.submit(build, ctx, "packet.cpp", asan=True, opt="-O0")
    b2 = ctx.pool.submit(build, ctx, "packet.cpp", out="packet2", opt="-O2", extra=["-fno-strict-aliasing"])
    gens = [(0, 5, ctx.pool.submit(model_check, ctx, "Frame", MCF % (1, 5, 2, "ACTION_CONSTRAINT Emit"), "gen0", 1)),
            (10, 6, ctx.pool.submit(model_check, ctx, "Frame", MCF % (2, 6, 2, "ACTION_CONSTRAINT Emit"), "gen1", 1))]
    if not q:
        gens.append((1, 7, ctx.pool.submit(model_check, ctx, "Frame", MCF % (2, 7, 2, "ACTION_CONSTRAINT Emit"), "gen2", 1)))
    mcs = [ctx.pool.submit(model_check, ctx, "Frame", MCF % a, f"mc{i}", 2)
           for i, a in enumerate([(3, 7, 2, "")] + ([] if q else [(2, 7, 2, ""), (1, 6, 2, ""), (2, 8, 2, ""), (4, 8, 2, "")]))]
    r = ctx.rng("s")
    sess = []
    ctx.cov["model_transitions_replayed"] = 0
    for combo, cap, g in gens:
        edges = edges_of(g.result())
        seqs, covered = tour.tours(edges, [[0] * cap, 0], max_len=150, limit=ctx.pick(40, None), rng=ctx.rng(f"t{cap}"))
        ctx.cov["model_transitions_replayed"] += covered
        for t in seqs:
            s = [f"S f {combo}"]
            for o in t:
                if o["e"] == "ser":
                    s.append(f"s {hx(o['h'])} {hx(o['f'])} {hx(o['d']) if o['own'] else '-'} {o['n']}")
                elif o["e"] == "size":
                    s.append(f"z {o['v']}")
                else:
                    s.append(f"k {o['i']} {o['b']}")
                s.append("d")
            sess.append(s)
    ntours = len(sess)
    big = [1 << 63, (1 << 64) - 1, 1 << 62, 1 << 32, (1 << 32) - 1]
    for c, (kind, h, f, t, cap) in enumerate(FRAMES):
        cs = SIZE[kind]
        fixed = h + f + cs
        top = (cap - fixed) // t
        wrap = [((1 << 64) + k - fixed) // t for k in range(0, cap + t, t)] + [(1 << 64) // t + k for k in range(top + 1)]
        wrap = [w for w in wrap if top < w < 1 << 64]

        def good(n=None):
            n = r.choice([0, 1, top, r.randint(0, top)]) if n is None else n
            n = min(n, top)
            B = rb(r, h + f + n * t)
            return B + crc(kind, B)
        for _ in range(ctx.pick(14 if cap < 100 else 5, 300)):
            s = [f"S f {c}"]
            for _ in range(10):
                x = r.random()
                if x < .35:
                    n = r.choice([0, 1, top, r.randint(0, top)]) if r.random() < .7 else r.choice([top + 1, top + 2, top * 2 + 1])
                    if top == 0 and n == 1 and r.random() < .7:
                        n = 0
                    H, F, D = rb(r, h), rb(r, f), rb(r, n * t)
                    s += [f"s {hx(H)} {hx(F)} {hx(D)}", "d"] + r.choice([[], ["x", "d"]])
                    if r.random() < .4:    # around what the storage holds
                        s += [f"s {hx(rb(r, h))} {hx(rb(r, f))} - {r.choice([0, 1, top, r.randint(0, top), top + 1])}", "d"]
                elif x < .45:
                    n = r.choice(wrap + big)
                    s += [f"s {hx(rb(r, h))} {hx(rb(r, f))} {hx(rb(r, r.choice([t, 2 * t])))} {n}", "d"]
                elif x < .6:
                    B = spoil(r, good())
                    s += [f"r {hx(B)} {len(B)}", "d"]
                elif x < .75:
                    B = good()
                    z = r.choice([len(B) - 1, len(B) + 1, len(B) + t, len(B) - t, 0, 1, cs, fixed - 1, fixed, cap, cap + 1, cap + t, r.randint(0, cap)] + big)
                    s += [f"r {hx(B)} {max(0, z)}", "d"]
                elif x < .85:
                    z = r.choice([0, 1, fixed - 1, fixed, fixed + 1, fixed + t, cap - 1, cap, cap + 1, cap + t, r.randint(0, cap)] + big)
                    s += [f"z {z}", "d"]
                else:
                    # a correct checksum at a size that is not a whole number of elements, or not in the storage
                    z = r.randint(cs + 1, cap)
                    B = rb(r, z - cs)
                    B += crc(kind, B)
                    s += [f"r {hx(B)} {z}", "d"]
                if r.random() < .2:
                    i = r.choice([1, cap, r.randint(1, cap)])
                    s += [f"k {i} {r.randrange(256)}", "d"]
            sess.append(s)
        # every claimed size around one frame, and every wrapped count
        B = good(top)
        s = [f"S f {c}", f"r {hx(B)} {len(B)}", "d"]
        for z in range(cap + 3) if cap < 70 or not q else list(range(fixed - 2, fixed + 10)) + list(range(cap - 9, cap + 3)):
            s += [f"z {z}", "d"]
        for z in range(max(1, cs), cap + 1) if cap < 70 or not q else list(range(cs, 24)):
            X = rb(r, z - cs)
            X += crc(kind, X)
            s += [f"r {hx(X)} {z}", "d"]
        s += [f"s {hx(rb(r, h))} {hx(rb(r, f))} {hx(rb(r, top * t))}", "d"]
        for n in (wrap[:40] if q else wrap) + big:
            s += [f"s {hx(rb(r, h))} {hx(rb(r, f))} {hx(rb(r, t))} {n}"]
        s.append("d")
        sess.append(s)
    rc = ctx.pool.submit(model_check, ctx, "Runs", RUNS % ("RunsSound", "0, 3, 255", "0, 1, 2, 5", 3), "runs", 1)
    rs = ctx.pool.submit(model_check, ctx, "Runs", RUNS % ("RunsSums", "1, 200", "1, 256, 513", 2), "sums", 1)
    large(ctx, (bf, b2))
    run_all(ctx, sess, (bf, b2), "FrameTrace", TF, "frame", ntours)
    rc.result()
    rs.result()
    for m in mcs:
        m.result()


RUNS = """SPECIFICATION RunsSpec
INVARIANT %s
CONSTANTS CVals = {%s} CCounts = {%s} CLen = %d
CHECK_DEADLOCK FALSE
"""
LARGE = [(11, "sum8", 7, 3, 1, 70001), (12, "f16m", 2, 2, 3, 131100), (13, "f16l", 5, 7, 16, 4500)]


def large(ctx, builds):
    """frames of tens of thousands of bytes, their content as runs"""
    r = ctx.rng("large")
    sess = []

    def runs(b):
        out = []
        for v in b:
            if out and out[-1][0] == v:
                out[-1][1] += 1
            else:
                out.append([v, 1])
        return ",".join(f"{v}*{n}" for v, n in out) or "-"
    for c, kind, h, f, t, cap in LARGE:
        fixed = h + f + SIZE[kind]
        top = (cap - fixed) // t
        counts = [n for n in (0, 1, 255, 256, 257, 4095, 4096, 16383, 32767, 32768, 65534, 65535, 65536, 65537, top - 1, top) if n <= top]
        over = [top + 1, top + 2, 2 * top + 1, top + 65536]

        def payload(n):
            k = r.randrange(1, 8)
            cuts = sorted(r.randrange(n * t + 1) for _ in range(k))
            b = b""
            for i, j in zip([0] + cuts, cuts + [n * t]):
                b += bytes([r.choice([0, 255, r.randrange(256)])]) * (j - i)
            return b
        def good(n):
            B = rb(r, h + f) + payload(n)
            return B + crc(kind, B)
        for k in range(ctx.pick(3, 40)):
            s = [f"S f {c}"]
            ns = r.sample(counts, min(len(counts), 6)) + r.sample(over, 2)
            r.shuffle(ns)
            for n in ns:
                s += [f"s {hx(rb(r, h))} {hx(rb(r, f))} {runs(payload(n))}", "d"] + r.choice([[], ["x", "d"]])
                for _ in range(2):
                    i = r.choice([1, h + f, h + f + 1, cap, min(cap, fixed + n * t), min(cap, fixed + n * t + 1), r.randrange(1, cap + 1), min(cap, r.choice([256, 65536, 65537]))])
                    s += [f"k {i} {r.randrange(256)}", "d"]
            for n in r.sample(counts, 4):
                B = good(n)
                s += [f"r {runs(B)} {len(B)}", "d"]
                for z in (len(B) - 1, len(B) + 1, len(B) + t, len(B) % 65536, len(B) + 65536, cap, cap + 1):
                    s += [f"z {z}", "d"]
                i = r.randrange(len(B))
                b = bytearray(B)
                b[i] ^= 1 << r.randrange(8)
                s += [f"r {runs(b)} {len(b)}", "d"]
            # a checksum that would be right for fewer bytes than the frame has
            n = r.choice([x for x in counts if x > 1])
            B = rb(r, h + f) + payload(n)
            w = B[:len(B) % 65536] if len(B) > 65536 else B[:-1]
            s += [f"r {runs(B + crc(kind, w))} {len(B) + SIZE[kind]}", "d"]
            sess.append(s)
    sessions = []
    for i, b in enumerate(builds):
        tr, sc = ctx.path(f"large{i}.ndjson"), ctx.path(f"large{i}.script")
        open(sc, "w").write("\n".join("\n".join(x) for x in sess) + "\n")
        side_by_side(sc, ctx.rng("pairs"), lambda w: w[1:3])
        run_harness(ctx, b.result(), sc, tr, timeout=600)
        sessions += split_sessions(tr)
    consts = "CONSTANTS CVals = {} CCounts = {} CLen = 0"
    ctx.cov["large_frame_events"] = sum(map(len, sessions))
    bad = validate(ctx, "FrameRunsTrace", sessions, consts, tag="large", shards=NCPU)
    if bad:
        report_violation(ctx, "large frame", "FrameRunsTrace", bad, consts)
