"""Shared machinery: build harnesses from /repo, run TLC, validate traces, write evidence."""
import json, os, re, shutil, subprocess, sys, time, random, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work")), prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.known = load_known(prop)

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def rng(self, salt=""):
        h = hashlib.sha256(f"{self.seed}/{self.prop}/{salt}".encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def path(self, *a):
        return os.path.join(self.work, *a)


def load_known(prop):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- build
def build(ctx, src, out=None, defs=(), asan=False, opt="-O1", extra=(), optional=(), races=False):
    """optional: NO_x defines that leave out a use of a public feature.  A feature that cannot be
    used at all (the code does not compile) is then logged as absent, which no specification allows."""
    if races:
        # plain memory accesses instrumented for the race detector of harness/vsan.hpp
        for d in ((), *((o,) for o in optional)):
            exe = build_races(ctx, src, out, tuple(defs) + d)
            if exe:
                return exe
        ctx.assumptions.append("clang could not build the harness: data races are only seen by their effects")
    try:
        return build1(ctx, src, out, defs, asan, opt, extra)
    except CheckError:
        for d in optional:
            try:
                return build1(ctx, src, out, tuple(defs) + (d,), asan, opt, extra)
            except CheckError:
                pass
        raise


def build_races(ctx, src, out, defs):
    exe = ctx.path(out or os.path.splitext(os.path.basename(src))[0])
    cmd = ["clang++", "-std=c++20", "-O1", "-g1", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS", "-DVS_TSAN",
           "-fsanitize=thread", "-fsanitize-ignorelist=" + os.path.join(HARN, "ignorelist.txt"),
           "-I", HARN, "-I", os.path.join(HARN, "stub"), "-I", os.path.join(REPO, "include"),
           *[f"-D{d}" for d in defs], "-c", os.path.join(HARN, src), "-o", exe + ".o"]
    for c in (cmd, ["clang++", "-pthread", exe + ".o", "-o", exe]):
        if subprocess.run(c, capture_output=True).returncode:
            return None
    return exe


def build1(ctx, src, out, defs, asan, opt, extra):
    exe = ctx.path(out or os.path.splitext(os.path.basename(src))[0])
    cmd = ["g++", "-std=c++20", opt, "-g1", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS",
           "-I", HARN, "-I", os.path.join(HARN, "stub"), "-I", os.path.join(REPO, "include")]
    if asan:
        cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    cmd += [f"-D{d}" for d in defs] + list(extra)
    cmd += [os.path.join(HARN, src), "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"harness {src} does not build against /repo:\n{r.stderr[-1200:]}")
    return exe


ENV_ASAN = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
                UBSAN_OPTIONS="halt_on_error=1")


def run_harness(ctx, exe, script, trace, timeout=600, args=()):
    """Feed a script to a harness; it writes one JSON event per line."""
    env = dict(os.environ, **ENV_ASAN)
    with open(script) as i, open(trace, "w") as o, open(trace + ".err", "w") as e:
        try:
            r = subprocess.run([exe, *map(str, args)], stdin=i, stdout=o, stderr=e, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"harness {os.path.basename(exe)} exceeded {timeout}s")
    if r.returncode:
        tail = open(trace + ".err").read()[-1500:]
        raise CheckError(f"harness {os.path.basename(exe)} exited {r.returncode}\n{tail}")


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg_text, tag, env=None, workers=1, timeout=300, args=(), heap="2g", jvm=(), files=()):
    """Run TLC in a private directory holding copies of all specs.  Returns dict."""
    d = ctx.path("tlc-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in files:
        shutil.copy(f, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = ""
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           f"-Djava.io.tmpdir={d}/tmp", *jvm,
           "-cp", TLA_JAR, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-nowarning", *args, module + ".tla"]
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as o:
        try:
            r = subprocess.run(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    txt = open(outp, errors="replace").read()
    res = dict(rc=rc, out=txt, dir=d, path=outp)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt.replace(",", ""))
    m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", txt)
    if m:
        res["generated"] = int(m[-1][0].replace(",", ""))
        res["distinct"] = int(m[-1][1].replace(",", ""))
    return res


def model_check(ctx, module, cfg_text, tag=None, workers=2, timeout=600, allow_timeout=False, args=(), heap="4g", files=()):
    """Exhaustive (or simulated) run; any error in the *specification* is an error of the check."""
    r = tlc(ctx, module, cfg_text, tag or ("mc-" + module), workers=workers, timeout=timeout, args=args, heap=heap, files=files)
    if r["rc"] == -1 and allow_timeout:
        ctx.cov.setdefault("explorations_cut_off", []).append(tag or module)
        m = re.findall(r"([\d,]+) states generated \([\d,]+ s/min\), ([\d,]+) distinct", r["out"])
        if m:
            r["generated"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        return r
    if r["rc"] != 0:
        raise CheckError(f"TLC on {module} failed (rc {r['rc']}):\n" + r["out"][-3000:])
    if "generated" in r:
        ctx.cov["states"] += r["distinct"]
        ctx.cov["transitions"] += r["generated"]
    return r


def inductive(ctx, module, cinits, inv, props, broken=(), timeout=600):
    """Apalache: inv holds at first (Init), is kept by every step from any state that satisfies it (IndInit), and implies
    props; with one of the constant initialisers in broken, it is not kept (so the step is not vacuous)."""
    def one(cinit, init, goal, length, expect):
        d = ctx.path(f"apa-{module}-{cinit}-{goal}-{length}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        e = dict(os.environ, JVM_ARGS="-Xmx3g", TMPDIR=d, JAVA_TOOL_OPTIONS=f"-Djava.io.tmpdir={d}")
        try:
            r = subprocess.run(["apalache-mc", "check", "--cinit=" + cinit, "--init=" + init, "--inv=" + goal, f"--length={length}",
                                "--out-dir=" + os.path.join(d, "out"), module + ".tla"], cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"Apalache on {module} ({cinit}, {goal}): timeout")
        m = re.search(r"The outcome is: (\w+)", r.stdout)
        if not m or m[1] != expect:
            raise CheckError(f"Apalache on {module} ({cinit}, {goal}, length {length}): {m and m[1]}, not {expect}\n" + r.stdout[-2000:])
    def all_of():
        for c in cinits:
            one(c, "Init", inv, 0, "NoError")
            one(c, "IndInit", inv, 1, "NoError")
            for g in props:
                one(c, "IndInit", g, 0, "NoError")
        for c in broken:
            one(c, "IndInit", inv, 1, "Error")
        ctx.cov.setdefault("inductive_invariants", []).append(f"{module}: {inv} ({', '.join(cinits)}) => {', '.join(props)}")
    return ctx.pool.submit(all_of)


def must_fail(ctx, *a, **k):
    """a model whose protection is left out has to break; otherwise the model proves nothing"""
    try:
        model_check(ctx, *a, **k)
    except CheckError as e:
        if "violated" in str(e):
            return
        raise
    raise CheckError(f"{a[0]} holds without its protection")


def edges_of(r):
    """(state, op, state') triples printed by an Emit action constraint."""
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"EDGE '):
            s = json.loads(line)[5:]
            out.append(json.loads(s))
    return out


# ---------------------------------------------------------------- traces
def side_by_side(path, rng, key, share=.5):
    """Rewrites a script: some of the sessions that use the same types (key of the first line's words) run side by side,
    two objects of one type in use at once.  Each session's own history is judged as if it had been alone."""
    sessions = []
    for line in open(path):
        if line[0] == "S":
            sessions.append([])
        sessions[-1].append(line)
    groups = {}
    for s in sessions:
        groups.setdefault(str(key(s[0].split())), []).append(s)
    with open(path, "w") as f:
        for g in groups.values():
            rng.shuffle(g)
            n = max(int(len(g) * share) // 2 * 2, 2 if len(g) > 1 else 0)
            for i, s in enumerate(g):
                if i < n and i % 2 == 0:
                    f.write(f"& {rng.randrange(1 << 60)}\n")
                f.write("".join(s))


def split_sessions(path):
    """A session starts at an event with e == init; of two that ran side by side, each is one."""
    sess, cur, pair = [], [], None
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if not line:
                continue
            if line == '{"e":"pair"}':
                pair = [[], []]
                continue
            if pair:
                m = re.match(r'\{"ob":([01]),', line)
                if m:
                    pair[int(m.group(1))].append("{" + line[m.end():])
                    continue
                if line != '{"e":"unpair"}':    # it ended badly, for both
                    for q in pair:
                        q.append(line)
                sess += ([cur] if cur else []) + [q for q in pair if len(q) > 1 or q and line == '{"e":"unpair"}']
                cur, pair = [], None
                continue
            if line.startswith('{"e":"init"') and cur:
                sess.append(cur)
                cur = []
            cur.append(line)
    if cur:
        sess.append(cur)
    return sess


def validate(ctx, module, sessions, consts="", tag="v", shards=None, timeout=600, max_lines=None, silent=False, heap="3g", files=(), direct=False):
    """Check sessions (lists of ndjson lines) with a trace spec.  Returns None or
    (session, index_of_rejected_line)."""
    if not sessions:
        raise CheckError("no traces recorded")
    total = sum(len(s) for s in sessions)
    if shards is None:
        shards = max(1, min(NCPU, total // 4000 + 1))
    shards = min(shards, len(sessions))
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for s in sessions:
        k = load.index(min(load))
        bins[k].append(s)
        load[k] += sum(map(len, s)) + 60 * len(s)
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n" + consts + "\n"
    cfg += "INVARIANT NotAccepted\nPOSTCONDITION Report\n" if silent else "POSTCONDITION Accepted\n"

    def one(k):
        fn = ctx.path(f"{tag}-{k}.ndjson")
        with open(fn, "w") as f:
            for s in bins[k]:
                f.write("\n".join(s) + "\n")
        r = tlc(ctx, module, cfg, f"{tag}-{k}", env=dict(TRACE=fn), workers=1, timeout=timeout, heap=heap, files=files)
        return k, r

    bad = None
    for k, r in (map if direct else ctx.pool.map)(one, range(shards)):   # direct: from a task of the pool
        out = r["out"]
        if silent and "Invariant NotAccepted is violated" in out:
            ok, rej = True, None
        else:
            m = re.findall(r"REJECT (\d+)", out)
            rej = int(m[-1]) if m else None
            ok = r["rc"] == 0 and rej is None and not silent
            if rej is None and "when TLC was evaluating" in out and re.search(r"[Oo]verflow when computing|Attempted to ", out):
                # a value no action can even be evaluated with (a number past all sizes, a field of another kind)
                at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                rej = int(at[-1]) if at else None
        if ok:
            continue
        if rej is None:
            raise CheckError(f"trace validation with {module} gave no verdict (rc {r['rc']}):\n" + out[-3000:])
        # locate
        n = 0
        for s in bins[k]:
            if rej <= n + len(s):
                if bad is None:
                    bad = (s, rej - n)
                break
            n += len(s)
        else:
            raise CheckError(f"{module}: rejected line {rej} beyond the trace\n" + out[-2000:])
    return bad


def shorten(line, n=400):
    return line if len(line) <= n else line[:n] + "..."


def report_violation(ctx, what, module, bad, consts, vkw=None, extra=None):
    """Confirm by re-validating the single session, then write a replay file and raise."""
    s, idx = bad
    again = validate(ctx, module, [s], consts, tag="confirm", shards=1, **(vkw or {}))
    if again is None:
        raise CheckError(f"{module}: rejection not repeated on the session alone")
    idx = again[1]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, f"{ctx.prop}.json")
    with open(fn, "w") as f:
        json.dump(dict(property=ctx.prop, spec=module, what=what, rejected_line=idx,
                       rejected_event=json.loads(s[idx - 1]) if idx <= len(s) else None,
                       history=[json.loads(x) for x in s[:idx]], **(extra or {})), f, indent=1)
    raise Violation(f"{what}: event {idx} of the recorded history is not explained by {module}: "
                    f"{shorten(s[idx-1]) if idx <= len(s) else '(end)'}", fn)


# ---------------------------------------------------------------- evidence / main
def write_evidence(ctx, level, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=ctx.cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    """Parse every specification with SANY; nothing else needs building ahead of a check."""
    d = os.path.join(VERIF, ".work", "setup")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc = 0
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in sorted(os.listdir(d)):
        if f.endswith(".tla"):
            r = subprocess.run(["java", "-cp", TLA_JAR, "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
            if r.returncode or "Semantic errors" in r.stdout or "Could not parse" in r.stdout:
                print(r.stdout[-2000:])
                rc = 1
    shutil.rmtree(d, ignore_errors=True)
    return rc


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop)
    rc = 0
    try:
        fn(ctx)
        for kid, desc in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {desc}")
        write_evidence(ctx, level, 0)
        print(f"OK property={prop} tier={ctx.tier} states={ctx.cov['states']} transitions={ctx.cov['transitions']} "
              f"traces={ctx.cov['traces_validated_against_impl']} wall={time.time()-ctx.t0:.1f}s")
    except Violation as v:
        write_evidence(ctx, level, 1)
        print(str(v)[:2000])
        print(f"VIOLATION property={prop} replay={v.replay}")
        rc = 1
    except CheckError as e:
        print(f"CHECK-ERROR property={prop}: {e}", file=sys.stderr)
        rc = 2
    finally:
        ctx.pool.shutdown(wait=False)
        if rc == 0 and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
