----------------------------- MODULE FrameTrace -----------------------------
EXTENDS Frame, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ kind = "" /\ hs = 0 /\ fs = 0 /\ ts = 1 /\ pad = {} /\ cap = 0 /\ store = <<>> /\ size = 0 /\ op = [e |-> "none"]
Keep == UNCHANGED <<kind, hs, fs, ts, pad, cap, op>>
Same == UNCHANGED fvars
Huge == 1000000000
Z(v) == IF v < 0 THEN Huge ELSE v     \* counts and sizes beyond any capacity
SameBut(a, b, at) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : at + i \in pad \/ a[i] = b[i]
Step ==
    CASE Ev.e = "init" -> /\ kind' = Ev.kind /\ hs' = Ev.hs /\ fs' = Ev.fs /\ ts' = Ev.ts /\ cap' = Ev.cap
                          /\ pad' = {Ev.pad[i] : i \in 1..Len(Ev.pad)}
                          /\ store' = Ev.store /\ size' = Ev.size /\ UNCHANGED op
                          /\ Ev.size = 0 /\ Len(Ev.store) = Ev.cap
      [] Ev.e = "ser" -> /\ store' = Ev.store /\ size' = Z(Ev.size) /\ Ev.inside
                         /\ Ev.ok = Fits(Z(Ev.n))
                         /\ IF Ev.ok THEN Serialised(Ev.h, Ev.f, IF Ev.own THEN Ev.d ELSE InPlace(Ev.n), store', size')
                            ELSE Refused(store, size, store', size')
                         /\ Keep
      [] Ev.e = "size" -> size' = Z(Ev.v) /\ Z(Ev.size) = size' /\ Ev.store = store /\ UNCHANGED store /\ Keep
      [] Ev.e = "poke" -> store' = [store EXCEPT ![Ev.i] = Ev.b] /\ Ev.store = store' /\ Z(Ev.size) = size /\ UNCHANGED size /\ Keep
      \* bytes put into the storage from outside, with the size claimed for them
      [] Ev.e = "recv" -> /\ store' = Ev.store /\ size' = Z(Ev.v) /\ Z(Ev.size) = size' /\ Len(Ev.store) = cap
                          /\ SubSeq(Ev.store, 1, Len(Ev.b)) = Ev.b /\ Keep
      [] Ev.e = "de" -> /\ Ev.store = store /\ Z(Ev.size) = size /\ Ev.inside
                        /\ Ev.valid = Valid(store, size)
                        /\ (Ev.valid => /\ SameBut(Ev.h, HeaderIn(store), 0) /\ SameBut(Ev.f, FieldsIn(store), hs) /\ Ev.n = Count(size)
                                        /\ Ev.off = hs + fs /\ Ev.d = PayloadIn(store, size))
                        /\ Same
      [] Ev.e = "done" -> Same
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, fvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
