----------------------------- MODULE HeapTrace ------------------------------
(* Checks recorded executions of the real heap.  Prop selects the clauses    *)
(* that are enforced; what is not enforced follows the log.                  *)
EXTENDS StaticHeap, IOUtils
CONSTANT Prop
VARIABLES l, handler
tvars == <<vars, l, handler>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
A == INSTANCE HeapAbstract WITH asize <- size

TInit == /\ l = 1 /\ handler = FALSE
         /\ size = 0 /\ blocks = <<>> /\ live = {} /\ free = 0 /\ minf = 0 /\ na = 0 /\ nf = 0
         /\ op = [e |-> "none"]

Same == UNCHANGED <<size, blocks, live, free, minf, na, nf>>

(* ---- H01: only the abstract allocator matters --------------------------- *)
H01Init == /\ size' = Ev.size /\ live' = {} /\ UNCHANGED <<blocks, free, minf, na, nf, handler>>
H01Alloc == /\ Ev.intact
            /\ IF Ev.off = -1 THEN UNCHANGED <<live, size>>
               ELSE /\ Ev.mis = 0 /\ A!AAlloc(Ev.off, Ev.req)
                    /\ Ev.e = "calloc" => Ev.zero
            /\ UNCHANGED <<blocks, free, minf, na, nf, handler>>
H01Free == /\ Ev.intact /\ Ev.own /\ A!AFree(Ev.off)
           /\ UNCHANGED <<blocks, free, minf, na, nf, handler>>
H01Other == /\ Ev.e \in {"refree", "reset"} => Ev.intact
            /\ Same /\ UNCHANGED handler
H01Step == CASE Ev.e = "init" -> H01Init
             [] Ev.e \in {"alloc", "calloc"} -> H01Alloc
             [] Ev.e = "free" -> H01Free
             [] Ev.e \in {"refree", "reset", "stats", "handler", "absent", "failing"} -> H01Other
             [] Ev.e = "churn" -> /\ Ev.intact /\ Same /\ UNCHANGED handler
                                  /\ Ev.off # -1 => A!Free(Ev.off, Ev.req)
             [] Ev.e = "copied" -> Ev.inside /\ Same /\ UNCHANGED handler
             [] OTHER -> FALSE

(* ---- H02: the counters are those of the model whose placements follow the log *)
Counters == Ev.free = free' /\ Ev.min = minf'
LInit == /\ Fresh(Ev.size) /\ handler' = FALSE
H02Alloc ==
    /\ UNCHANGED handler
    /\ IF Ev.off = -1
       THEN /\ Same
            /\ IF Ev.e = "alloc" THEN Ev.cb = (IF handler THEN 1 ELSE 0) ELSE Ev.cb <= 1
       ELSE LET i == At(blocks, Ev.off - Hdr) IN
            /\ Ev.req > 0 /\ (Ev.e = "calloc" => ~Ev.over)
            /\ i # 0 /\ Place(i, Ev.req)
            /\ Ev.cb = 0
    /\ Counters
H02Stats ==
    LET fs == SelectSeq(blocks, LAMBDA b : ~b.used)
        sz == {fs[i].size : i \in 1..Len(fs)}
    IN /\ Same /\ UNCHANGED handler
       /\ Ev.avail = free /\ Ev.min = minf /\ Ev.na = na /\ Ev.nf = nf
       /\ Ev.count = Len(fs)
       /\ IF fs = <<>> THEN Ev.largest = 0
          ELSE Ev.largest \in sz /\ Ev.smallest \in sz /\ \A s \in sz : s <= Ev.largest /\ s >= Ev.smallest
H02Free ==   \* the model's FreeAt also sets op; only the state part is wanted
    LET i == At(blocks, Ev.off - Hdr) IN
    /\ i # 0 /\ blocks[i].used
    /\ blocks' = Release(blocks, i)
    /\ live' = {b \in live : b.off # Ev.off}
    /\ free' = free + blocks[i].size /\ nf' = nf + 1
    /\ UNCHANGED <<size, minf, na, handler>>
(* which block served the first of them is not this property's concern, and they end where they began *)
H02Churn == /\ UNCHANGED <<size, blocks, live, free, handler>>
            /\ Ev.cb = IF handler THEN Ev.failed ELSE 0
            /\ na' = na + Ev.n - Ev.failed /\ nf' = nf + Ev.n - Ev.failed
            /\ IF Ev.failed = Ev.n THEN minf' = minf
               ELSE IF Ev.same
               THEN LET i == At(blocks, Ev.off - Hdr) IN
                    /\ i # 0 /\ Fits(blocks[i], RoundUp(Ev.req + Hdr))
                    /\ minf' = Min2(minf, free - Take(blocks, i, RoundUp(Ev.req + Hdr))[i].size)
               ELSE minf' = Ev.min
            /\ Counters
H02Step == CASE Ev.e = "init" -> LInit /\ Counters
             [] Ev.e \in {"alloc", "calloc"} -> H02Alloc
             [] Ev.e = "free" -> H02Free /\ Counters /\ Ev.cb = 0
             [] Ev.e = "refree" -> Same /\ Counters /\ Ev.cb = 0 /\ UNCHANGED handler
             [] Ev.e = "churn" -> H02Churn
             [] Ev.e = "reset" -> minf' = free /\ UNCHANGED <<size, blocks, live, free, na, nf, handler>>
                                   /\ Counters /\ Ev.cb = 0
             [] Ev.e = "stats" -> H02Stats
             [] Ev.e = "handler" -> Same /\ handler' = Ev.on
             [] Ev.e = "failing" -> Same /\ UNCHANGED handler
             [] Ev.e = "copied" -> Same /\ UNCHANGED handler
             [] OTHER -> FALSE

(* ---- H03: placement and success are exactly first fit with coalescing --- *)
H03Alloc ==
    /\ UNCHANGED handler
    /\ IF ~Ev.nested /\ Ev.req > 0 /\ Ev.req < 2000000000 /\ Servable(blocks, Ev.req)
       THEN LET i == FirstFit(blocks, RoundUp(Ev.req + Hdr)) IN
            /\ Ev.off = blocks[i].off + Hdr
            /\ Place(i, Ev.req)
       ELSE Ev.off = -1 /\ Same
(* the failure handler runs (and may use the heap): the request has failed already *)
H03Failing == /\ ~(Ev.req > 0 /\ Ev.req < 2000000000 /\ Servable(blocks, Ev.req))
              /\ Same /\ UNCHANGED handler
H03Churn == /\ Churn(Ev.n, Ev.req) /\ UNCHANGED handler
            /\ IF Servable(blocks, Ev.req)
               THEN Ev.failed = 0 /\ Ev.same /\ Ev.off = blocks[FirstFit(blocks, RoundUp(Ev.req + Hdr))].off + Hdr
               ELSE Ev.failed = Ev.n
H03Step == CASE Ev.e = "init" -> LInit
             [] Ev.e = "churn" -> H03Churn
             [] Ev.e \in {"alloc", "calloc"} -> H03Alloc
             [] Ev.e = "free" -> H02Free
             [] Ev.e = "failing" -> H03Failing
             [] Ev.e \in {"refree", "reset", "stats", "handler", "absent", "copied"} -> Same /\ UNCHANGED handler
             [] OTHER -> FALSE

Step == CASE Prop = "H01" -> H01Step
          [] Prop = "H02" -> H02Step
          [] Prop = "H03" -> H03Step

TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
