import json
from core import *
from families import check

MC = """SPECIFICATION Spec
CONSTANTS Tokens = {%s} MaxLen = %d MTable <- %s
%s
INVARIANT Again
PROPERTIES Agree Untouched
CHECK_DEADLOCK FALSE
"""
TOK = [["-s", "-n", "-f", "--s", "5", "", "7x", "x y"], ["-s", "-n", "-m", "5", "7x", "", "o"]]
NAMES = [["-s", "-n", "-f", "--s"], ["-s", "-n", "-m"], ["--name", "--name2", "--nam", "-i", "-d", "--dd", "-v", "-vv"], ["", "a b", "5", "-5"], [], ["-d", "-e", "-n", "-m"], ["z", "y", "x", "w", "a", "b"],
         ["--" + x for x in ("l" * 20 + "1", "l" * 20 + "2", "m" * 70 + "1", "m" * 70 + "2", "n" * 300 + "1", "n" * 300 + "2", "l" * 20)] + ["-F", "-f", "-\xe9", "-i"],
         [f"--{k}-{n}" for n in range(18) for k in ("text", "int", "dbl", "flag")]]
TRC = "CONSTANTS Tokens = {} MaxLen = 0 MTable = 0"


def hx(t):
    return t.encode("latin-1").hex() or "-"


def number(r):
    x = r.random()
    sg = r.choice(["", "", "-", "+"])
    if x < .25:
        return sg + str(r.choice([0, 1, 7, 42, 999999, 2147483646, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 10 ** 12, 10 ** 19, 10 ** 25, r.randrange(1 << 31)]))
    if x < .5:
        return sg + str(r.randrange(1000)) + "." + r.choice(["5", "25", "125", "0", "000", "5000", ""])
    if x < .6:
        return sg + r.choice(["1e3", "25e1", "1.5e2", "125e-3", "1E2", "1e+2", "0e9", "1e9", "-1e9"])
    if x < .75:
        return sg + str(r.randrange(2000)) + r.choice(["x", " 7", "-3", "abc", "%", "\t1", "--", "/2"])
    if x < .85:
        return r.choice([" ", "\t", "\n ", "   "]) + sg + str(r.randrange(1000))
    if x < .95:
        return r.choice(["abc", "x5", "--7", "-", "+", ".", "-.5", ".25", "=5", "nan", "inf", "#"])
    return r.choice(["", " ", "\t\n"])


def text(r):
    return r.choice(["hello", "hello world", " lead", "trail ", "a\tb", "", "\n", "x" * 40, "--", "-", "a=b", "\"q\"", "\xe9t\xe9", "two  spaces", "5", "long " * 30])


@check("A01")
def argv(ctx):
    q = ctx.quick
    bf = ctx.pool.submit(build, ctx, "argv.cpp", asan=True, opt="-O0")
    jobs = []
    for t in (0, 1):
        toks = ", ".join(json.dumps(x) for x in TOK[t])
        n = (4 if t == 0 else 4) if q else 5
        jobs.append(ctx.pool.submit(model_check, ctx, "Argv", MC % (toks, n if not q else n, f"T{t}", "ACTION_CONSTRAINT Emit"), f"mc{t}", 1, 900))
    r = ctx.rng("lines")
    sess = []
    for k in range(ctx.pick(500, 6000)):
        t = r.choice([0, 1, 2, 2, 2, 3, 4, 5, 5, 5, 6, 7, 7, 8])
        s = [f"S {t}"]
        for _ in range(r.randint(1, 4)):
            line = ["prog"] if r.random() < .95 else []
            while r.random() < .88 and line or (not line and r.random() < .5):
                x = r.random()
                nm = NAMES[t] or ["-q"]
                if x < .5:
                    line.append(r.choice(nm))
                    if r.random() < .8:
                        line.append(number(r) if r.random() < .6 else text(r))
                elif x < .6:      # nearly a name
                    a = r.choice(nm)
                    line.append(r.choice([a + "=5", a + " ", a[:-1], a.upper(), a + a, "-" + a, a + "x"]))
                elif x < .8:
                    line.append(text(r))
                else:
                    line.append(number(r))
                if len(line) > 14:
                    break
            s.append("P " + " ".join(map(hx, line)))
        sess.append(s)
    for k in range(ctx.pick(10, 80)):       # hundreds of arguments, long ones
        t = k % 9
        nm = NAMES[t] or ["-q"]
        line = ["prog"]
        for _ in range(r.choice([270, 400, 700])):
            line.append(r.choice(nm) if r.random() < .3 else text(r) if r.random() < .5 else number(r))
        line += [r.choice(nm), r.choice(["5", "y" * 3000])]
        sess.append([f"S {t}", "P " + " ".join(map(hx, line)), "P " + " ".join(map(hx, ["prog"] + line[-2:]))])
    for t, names in enumerate(NAMES[7:], 7):  # each option alone on a fresh parser
        sess += [[f"S {t}", "P " + " ".join(map(hx, ["prog", n, "41"]))] for n in names]
    for t, names in enumerate(NAMES[:7]):   # every option given a very long value
        sess.append([f"S {t}"] + ["P " + " ".join(map(hx, ["prog", nm, c * n])) for nm in names for c, n in (("y", 3000), ("z y", 90000 // 3))])
    exe = bf.result()
    total = 0
    for t, j in enumerate(jobs):
        lines = [json.loads(json.loads(x)[5:]) for x in j.result()["out"].splitlines() if x.startswith('"LINE ')]
        uniq = sorted({tuple(x) if isinstance(x, list) else () for x in lines})
        total += len(uniq)
        r.shuffle(uniq)
        cap = ctx.pick(3000, 40000)
        # a fresh parser each, or a few lines on the same one
        i = 0
        uniq = uniq[:cap] if len(uniq) > cap * 2 else uniq
        while i < len(uniq):
            n = r.choice([1, 1, 2, 4])
            sess.append([f"S {t}"] + ["P " + " ".join(map(hx, ("prog",) + x)) for x in uniq[i:i + n]])
            i += n
    open(ctx.path("script"), "w").write("\n".join("\n".join(s) for s in sess) + "\n")
    side_by_side(ctx.path("script"), ctx.rng("pairs"), lambda w: w[1])
    run_harness(ctx, exe, ctx.path("script"), ctx.path("trace.ndjson"), timeout=600)
    sessions = split_sessions(ctx.path("trace.ndjson"))
    bad = validate(ctx, "ArgvTrace", sessions, TRC, shards=NCPU)
    ctx.cov["traces_validated_against_impl"] = len(sessions)
    ctx.cov["events_validated"] = sum(map(len, sessions))
    ctx.cov["model_command_lines"] = total
    ctx.cov["samples"] = [[json.loads(x) for x in sessions[k][:4]] for k in (0, -1)]
    if bad:
        report_violation(ctx, "command line", "ArgvTrace", bad, TRC)
