------------------------------ MODULE Pipeline ------------------------------
(* What users of a pipeline stage or worker pool observe: pushes (which take *)
(* time), calls of the function, destruction.  Values identify items.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES kind,      \* "stage" or "pool"
          pushing,   \* producer -> item being pushed
          waiting,   \* items whose push has begun and that were not handed to the function yet
          pred,      \* item -> items whose push was over when its own began, still waiting then
          running,   \* items being handled
          phase,     \* "open", "closing", "closed"
          op
pvars == <<kind, pushing, waiting, pred, running, phase>>
InPush == {pushing[t] : t \in DOMAIN pushing}

PushBegin(t, v) ==
    /\ t \notin DOMAIN pushing /\ v \notin waiting \cup running /\ phase = "open"
    /\ pushing' = pushing @@ (t :> v)
    /\ pred' = (v :> (IF kind = "stage" THEN waiting \ InPush ELSE {})) @@ pred
    /\ waiting' = waiting \cup {v}
    /\ UNCHANGED <<kind, running, phase>>
PushEnd(t) ==
    /\ t \in DOMAIN pushing
    /\ pushing' = [x \in DOMAIN pushing \ {t} |-> pushing[x]]
    /\ UNCHANGED <<kind, waiting, pred, running, phase>>
(* the item could not be copied: the push throws, and it was never there *)
PushFail(t) ==
    /\ t \in DOMAIN pushing /\ pushing[t] \in waiting
    /\ waiting' = waiting \ {pushing[t]}
    /\ pushing' = [x \in DOMAIN pushing \ {t} |-> pushing[x]]
    /\ UNCHANGED <<kind, pred, running, phase>>
CallBegin(v) ==
    /\ v \in waiting /\ phase # "closed"
    /\ kind = "stage" => running = {} /\ pred[v] \cap waiting = {}
    /\ waiting' = waiting \ {v} /\ running' = running \cup {v}
    /\ UNCHANGED <<kind, pushing, pred, phase>>
CallEnd(v) ==
    /\ v \in running /\ running' = running \ {v}
    /\ UNCHANGED <<kind, pushing, waiting, pred, phase>>
DestroyBegin == phase = "open" /\ pushing = << >> /\ phase' = "closing" /\ UNCHANGED <<kind, pushing, waiting, pred, running>>
DestroyEnd ==
    /\ phase = "closing" /\ waiting = {} /\ running = {}
    /\ phase' = "closed" /\ UNCHANGED <<kind, pushing, waiting, pred, running>>

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MKind, MProds, MItems, MWorkers
VARIABLES history,   \* items in the order they were handed to the function
          lost       \* items whose push failed
MInit == /\ kind = MKind /\ pushing = << >> /\ waiting = {} /\ pred = << >> /\ running = {} /\ phase = "open"
         /\ op = [e |-> "init"] /\ history = <<>> /\ lost = {}
Fresh == CHOOSE v \in 1..(MItems + 1) : v = Cardinality(DOMAIN pred) + 1
MNext ==
    \/ \E t \in MProds : Fresh <= MItems /\ PushBegin(t, Fresh) /\ op' = [e |-> "pbeg", p |-> t, v |-> Fresh] /\ UNCHANGED history /\ UNCHANGED lost
    \/ \E t \in MProds : PushEnd(t) /\ op' = [e |-> "pend", p |-> t] /\ UNCHANGED history /\ UNCHANGED lost
    \/ \E t \in MProds : PushFail(t) /\ op' = [e |-> "pthrow", p |-> t, v |-> pushing[t]] /\ lost' = lost \cup {pushing[t]} /\ UNCHANGED history
    \/ \E v \in waiting : /\ (kind = "stage" \/ Cardinality(running) < MWorkers) /\ CallBegin(v)
                          /\ op' = [e |-> "cbeg", v |-> v] /\ history' = Append(history, v) /\ UNCHANGED lost
    \/ \E v \in running : CallEnd(v) /\ op' = [e |-> "cend", v |-> v] /\ UNCHANGED history /\ UNCHANGED lost
    \/ DestroyBegin /\ op' = [e |-> "dbeg"] /\ UNCHANGED history /\ UNCHANGED lost
    \/ DestroyEnd /\ op' = [e |-> "dend"] /\ UNCHANGED history /\ UNCHANGED lost
MSpec == MInit /\ [][MNext]_<<pvars, op, history, lost>>
(* the same without the model's bookkeeping: what PipelineImpl has to refine *)
AInit == kind = MKind /\ pushing = << >> /\ waiting = {} /\ pred = << >> /\ running = {} /\ phase = "open"
ANext == \/ \E t \in MProds, v \in 1..MItems : PushBegin(t, v)
         \/ \E t \in MProds : PushEnd(t) \/ PushFail(t)
         \/ \E v \in 1..MItems : CallBegin(v) \/ CallEnd(v)
         \/ DestroyBegin \/ DestroyEnd
ASpec == AInit /\ [][ANext]_pvars
Emit == PrintT("EDGE " \o ToJson(<<<<pushing, waiting, running, phase, DOMAIN pred>>, op', <<pushing', waiting', running', phase', DOMAIN pred'>> >>))
View == pvars
HandledOnce == \A i, j \in 1..Len(history) : i # j => history[i] # history[j]
NothingLost == phase = "closed" => {history[i] : i \in 1..Len(history)} = DOMAIN pred \ lost /\ running = {}
NeverHandled == \A i \in 1..Len(history) : history[i] \notin lost
OneAtATime == kind = "stage" => Cardinality(running) <= 1
InOrder == kind = "stage" => \A i, j \in 1..Len(history) : i < j => history[j] \notin pred[history[i]]
FinalPhase == [][phase = "closed" => UNCHANGED pvars]_<<pvars, op, history, lost>>
=============================================================================
