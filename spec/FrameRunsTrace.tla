---------------------------- MODULE FrameRunsTrace ----------------------------
(* K02 at scale: the transitions of Frame.tla with storage and payload held  *)
(* as runs (Runs.tla), for capacities and counts of tens of thousands.       *)
EXTENDS Runs, TLC, Json, IOUtils
VARIABLES kind, hs, fs, ts, cap, store, size, l
rvars == <<kind, hs, fs, ts, cap, store, size, pick>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Fixed == hs + fs + Size(kind)
Fits(n) == n <= (cap - Fixed) \div ts
SizeOk(z) == z >= Fixed /\ z <= cap /\ (z - Fixed) % ts = 0
Valid(st, z) == SizeOk(z) /\ Cut(st, z - Size(kind), Size(kind)) = RunsOf(RCrc(kind, Front(st, z - Size(kind))))
FrameOf(st, z) == Front(st, IF z > cap THEN cap ELSE z)
Huge == 1000000000
Z(v) == IF v < 0 THEN Huge ELSE v
Put(st, i, b) == Norm(Front(st, i - 1) \o <<<<b, 1>>>> \o Drop(st, i))
Keep == UNCHANGED <<kind, hs, fs, ts, cap, pick>>
TInit == l = 1 /\ kind = "" /\ hs = 0 /\ fs = 0 /\ ts = 1 /\ cap = 0 /\ store = <<>> /\ size = 0 /\ pick = <<>>
Step ==
    CASE Ev.e = "init" -> /\ kind' = Ev.kind /\ hs' = Ev.hs /\ fs' = Ev.fs /\ ts' = Ev.ts /\ cap' = Ev.cap /\ UNCHANGED pick
                          /\ store' = Ev.store /\ size' = Ev.size /\ Ev.size = 0 /\ RNorm(Ev.store) /\ RLen(Ev.store) = Ev.cap
      [] Ev.e = "ser" -> /\ store' = Ev.store /\ size' = Z(Ev.size) /\ Ev.inside /\ RLen(Ev.store) = cap
                         /\ Ev.ok = Fits(Z(Ev.n))
                         /\ IF Ev.ok THEN LET b == Norm(RunsOf(Ev.h) \o RunsOf(Ev.f) \o Ev.d) IN
                                          /\ size' = Fixed + RLen(Ev.d) /\ RLen(Ev.d) = Ev.n * ts /\ Valid(store', size')
                                          /\ Front(store', size' - Size(kind)) = b
                            ELSE size' = size /\ FrameOf(store', size) = FrameOf(store, size)
                         /\ Keep
      [] Ev.e = "size" -> size' = Z(Ev.v) /\ Z(Ev.size) = size' /\ Ev.store = store /\ UNCHANGED store /\ Keep
      [] Ev.e = "poke" -> store' = Put(store, Ev.i, Ev.b) /\ Ev.store = store' /\ Z(Ev.size) = size /\ UNCHANGED size /\ Keep
      [] Ev.e = "recv" -> /\ store' = Ev.store /\ size' = Z(Ev.v) /\ Z(Ev.size) = size' /\ RLen(Ev.store) = cap
                          /\ Front(Ev.store, RLen(Ev.b)) = Ev.b /\ Keep
      [] Ev.e = "de" -> /\ Ev.store = store /\ Z(Ev.size) = size /\ Ev.inside
                        /\ Ev.valid = Valid(store, size)
                        /\ (Ev.valid => /\ RunsOf(Ev.h) = Front(store, hs) /\ RunsOf(Ev.f) = Cut(store, hs, fs)
                                        /\ Ev.n = (size - Fixed) \div ts /\ Ev.off = hs + fs
                                        /\ Ev.d = Cut(store, hs + fs, size - Fixed))
                        /\ UNCHANGED <<store, size>> /\ Keep
      [] Ev.e = "done" -> UNCHANGED rvars
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, rvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
