---------------------------- MODULE PipelineTrace ---------------------------
(* Recorded executions of stages and pools against Pipeline.  pbeg events    *)
(* carry in w the worker that later handled the item (prophecy, -1: none).   *)
(* P01 order, exactly once, intact    P02/P03 draining    P04 load and       *)
(* worker numbers    P05 figures                                             *)
EXTENDS Pipeline, SequencesExt, IOUtils
CONSTANT Prop
VARIABLES l, workers, strict,
          wq,       \* worker -> items queued at it and not begun
          busy,     \* worker -> item it handles, 0 if idle
          bound,    \* producer -> least upper bound of the shortest queue when its push began
          begun,    \* worker -> time its call began
          stats     \* worker -> last ten [t, lo, hi]
tvars == <<workers, strict, wq, busy, bound, begun, stats>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
W == DOMAIN busy
TInit == /\ l = 1 /\ kind = "" /\ pushing = << >> /\ waiting = {} /\ pred = << >> /\ running = {} /\ phase = "open"
         /\ op = [e |-> "none"] /\ history = <<>> /\ lost = {} /\ workers = 0 /\ strict = FALSE
         /\ wq = << >> /\ busy = << >> /\ bound = << >> /\ begun = << >> /\ stats = << >>
Same == UNCHANGED <<pvars, tvars>>
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* many items, pushed as ranges by one producer each.  order: the runs of successive numbers in which the items of each *)
(* range were handled;  cover: [lo, hi, times] for all numbers handled                                                  *)
BulkAll == Ev.cover = [i \in 1..Len(Ev.pushed) |-> Ev.pushed[i] \o <<1>>]
BulkOrder == Ev.order = [i \in 1..Len(Ev.pushed) |-> <<Ev.pushed[i]>>]
(* ---------------------------------------------------------------- P01-P03 *)
Core == CASE Ev.e = "pbeg" -> PushBegin(Ev.p, Ev.v)
          [] Ev.e = "pend" -> PushEnd(Ev.p)
          [] Ev.e = "pthrow" -> PushFail(Ev.p)
          [] Ev.e = "cbeg" -> CallBegin(Ev.v)
          [] Ev.e = "cend" -> CallEnd(Ev.v)
          [] Ev.e = "dbeg" -> DestroyBegin
          [] Ev.e = "dend" -> DestroyEnd
          [] Ev.e = "many" -> phase = "open" /\ phase' = "many" /\ UNCHANGED <<kind, pushing, waiting, pred, running>>
          [] Ev.e = "bulk" -> /\ phase = "many" /\ phase' = "closed" /\ UNCHANGED <<kind, pushing, waiting, pred, running>>
                              /\ Prop \in {"P02", "P03"} => BulkAll
                              /\ Prop = "P01" => BulkAll /\ BulkOrder
          [] OTHER -> FALSE
Ignored == Ev.e \in {"qin", "q", "qany", "done"}
Settled == waiting = {} /\ pushing = << >> /\ phase # "many"
P01 == IF Ev.e = "dend" THEN UNCHANGED pvars     \* draining is P02's
       ELSE IF Ev.e = "stuck" THEN Settled /\ UNCHANGED pvars
       ELSE IF Ignored THEN UNCHANGED pvars ELSE Core
(* P02: order, content and overlap are P01's *)
Calls == CASE Ev.e = "cbeg" -> /\ phase # "closed" /\ UNCHANGED <<kind, pushing, pred, phase>>
                               /\ waiting' = waiting \ {Ev.v} /\ running' = running \cup {Ev.v}
          [] Ev.e = "cend" -> running' = running \ {Ev.v} /\ UNCHANGED <<kind, pushing, waiting, pred, phase>>
          [] OTHER -> Core
P02 == IF Ignored \/ Ev.e = "race" THEN UNCHANGED pvars ELSE Calls
P03 == IF Ignored THEN UNCHANGED pvars ELSE Core
(* -------------------------------------------------------------------- P04 *)
Owner(v) == \E w \in W : Contains(wq[w], v)
OwnerOf(v) == CHOOSE w \in W : Contains(wq[w], v)
Pos(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
AheadAtLeast(v) == IF ~Owner(v) THEN 0
                   ELSE LET w == OwnerOf(v) ahead == Pos(wq[w], v) - 1
                        IN IF busy[w] = 0 /\ ahead > 0 THEN ahead - 1 ELSE ahead
Queue(v, w) == wq' = IF w \notin W THEN wq ELSE [wq EXCEPT ![w] = Append(@, v)]
P04 == CASE Ev.e = "pbeg" -> /\ PushBegin(Ev.p, Ev.v) /\ Queue(Ev.v, Ev.w)
                             /\ bound' = (Ev.p :> Least({Len(wq[w]) : w \in 0..(workers - 1)})) @@ bound
                             /\ UNCHANGED <<workers, strict, busy, begun, stats>>
         [] Ev.e = "pend" -> /\ AheadAtLeast(pushing[Ev.p]) <= bound[Ev.p]
                             /\ PushEnd(Ev.p) /\ UNCHANGED tvars
         [] Ev.e = "pthrow" -> PushFail(Ev.p) /\ UNCHANGED tvars
         [] Ev.e = "cbeg" -> /\ Ev.w \in 0..(workers - 1) /\ busy[Ev.w] = 0
                             /\ wq[Ev.w] # <<>> /\ Head(wq[Ev.w]) = Ev.v
                             /\ wq' = [wq EXCEPT ![Ev.w] = Tail(@)] /\ busy' = [busy EXCEPT ![Ev.w] = Ev.v]
                             /\ UNCHANGED <<pvars, workers, strict, bound, begun, stats>>
         [] Ev.e = "cend" -> busy[Ev.w] = Ev.v /\ busy' = [busy EXCEPT ![Ev.w] = 0] /\ UNCHANGED <<pvars, workers, strict, wq, bound, begun, stats>>
         [] Ev.e \in {"dbeg", "dend", "race"} -> Same
         [] Ignored -> Same
         [] OTHER -> FALSE
(* -------------------------------------------------------------------- P05 *)
Sum(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
Figures(w, mt, ml) == /\ mt = Sum(stats[w], LAMBDA x : x.t) \div 10
                      /\ ml >= Sum(stats[w], LAMBDA x : x.lo) \div 10
                      /\ ml <= Sum(stats[w], LAMBDA x : x.hi) \div 10
LastTen(s) == IF Len(s) > 10 THEN SubSeq(s, 1, 10) ELSE s
Busy == {w \in W : busy[w] # 0}
P05 == CASE Ev.e = "pbeg" -> PushBegin(Ev.p, Ev.v) /\ Queue(Ev.v, Ev.w) /\ UNCHANGED <<workers, strict, busy, bound, begun, stats>>
         [] Ev.e = "pend" -> PushEnd(Ev.p) /\ UNCHANGED tvars
         [] Ev.e = "pthrow" -> PushFail(Ev.p) /\ UNCHANGED tvars
         [] Ev.e = "cbeg" -> /\ Ev.w \in W
                             /\ strict => Figures(Ev.w, Ev.mt, Ev.ml)
                             /\ wq' = [wq EXCEPT ![Ev.w] = SelectSeq(@, LAMBDA x : x # Ev.v)]
                             /\ busy' = [busy EXCEPT ![Ev.w] = Ev.v] /\ begun' = [begun EXCEPT ![Ev.w] = <<Ev.s, Ev.t>>]
                             /\ UNCHANGED <<pvars, workers, strict, bound, stats>>
         [] Ev.e = "cend" -> /\ stats' = [stats EXCEPT ![Ev.w] = LastTen(
                                    <<[t |-> (Ev.s - begun[Ev.w][1]) * 1000 + (Ev.t - begun[Ev.w][2]) \div 1000,
                                       lo |-> Len(SelectSeq(wq[Ev.w], LAMBDA x : x \notin InPush)),
                                       hi |-> Len(wq[Ev.w])]>> \o @)]
                             /\ busy' = [busy EXCEPT ![Ev.w] = 0]
                             /\ UNCHANGED <<pvars, workers, strict, wq, bound, begun>>
         [] Ev.e = "q" -> (strict => Figures(0, Ev.mt, Ev.ml)) /\ Same
         [] Ev.e = "qin" -> (strict => Figures(0, Ev.mt, Ev.ml)) /\ Same
         [] Ev.e \in {"dbeg", "dend", "done", "qany"} -> Same
         [] OTHER -> FALSE
Step == IF Ev.e = "init"
        THEN /\ kind' = Ev.kind /\ pushing' = << >> /\ waiting' = {} /\ pred' = << >> /\ running' = {} /\ phase' = "open"
             /\ workers' = Ev.k /\ strict' = Ev.strict /\ wq' = [w \in 0..(Ev.k - 1) |-> <<>>] /\ busy' = [w \in 0..(Ev.k - 1) |-> 0]
             /\ bound' = << >> /\ begun' = [w \in 0..(Ev.k - 1) |-> <<0, 0>>] /\ stats' = [w \in 0..(Ev.k - 1) |-> <<>>]
        ELSE CASE Prop = "P01" -> P01 /\ UNCHANGED tvars
               [] Prop = "P02" -> P02 /\ UNCHANGED tvars
               [] Prop = "P03" -> P03 /\ UNCHANGED tvars
               [] Prop = "P04" -> P04
               [] Prop = "P05" -> P05
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ history' = history /\ lost' = lost /\ Step
TSpec == TInit /\ [][TNext]_<<pvars, op, history, lost, l, tvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
