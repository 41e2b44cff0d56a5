---------------------------- MODULE PipelineImpl ----------------------------
(* The ring-buffer algorithm of the stage (one worker) and the pool (several *)
(* workers), one action per access to shared state.  TLC checks that it      *)
(* refines Pipeline, that calls of one worker do not overlap, that a single  *)
(* producer always queues at a shortest queue, and that it terminates.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Prods, Items, Workers, N, Faulty
VARIABLES closed, tail, head, slot, ready,
          pc,        \* producer -> label
          loc,       \* producer -> [v, k, best, w, i]: item, scan position, best size and its worker, claimed number
          wpc, item, \* worker -> label, item it took
          mainpc, next,
          \* history
          pushing, begun, handed, pred, running, pushedBy
vars == <<closed, tail, head, slot, ready, pc, loc, wpc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
W == 1..Workers
None == 0
Handed == {handed[j] : j \in 1..Len(handed)}
Waiting == begun \ Handed
InPush == {pushing[t] : t \in DOMAIN pushing}
Phase == CASE mainpc = "use" -> "open" [] mainpc \in {"join"} -> "closing" [] OTHER -> "closed"
Abs == INSTANCE Pipeline WITH MKind <- Kind, MProds <- Prods, MItems <- Items, MWorkers <- Workers,
            kind <- Kind, waiting <- Waiting, phase <- Phase, op <- 0, history <- 0, lost <- 0
Init ==
    /\ closed = FALSE /\ tail = [w \in W |-> 0] /\ head = [w \in W |-> 0]
    /\ slot = [w \in W |-> [i \in 0..(N - 1) |-> None]] /\ ready = [w \in W |-> [i \in 0..(N - 1) |-> FALSE]]
    /\ pc = [t \in Prods |-> "idle"] /\ loc = [t \in Prods |-> [v |-> 0, k |-> 0, best |-> 0, w |-> 0, i |-> 0]]
    /\ wpc = [w \in W |-> "top"] /\ item = [w \in W |-> None] /\ mainpc = "use" /\ next = 1
    /\ pushing = << >> /\ begun = {} /\ handed = <<>> /\ pred = << >> /\ running = {} /\ pushedBy = << >>
Q(w) == Cardinality({v \in Waiting : v \in DOMAIN pushedBy /\ pushedBy[v] = w})   \* items queued at a worker
PBegin(t) ==
    /\ pc[t] = "idle" /\ next <= Items /\ mainpc = "use"
    /\ pc' = [pc EXCEPT ![t] = "scan"]
    /\ loc' = [loc EXCEPT ![t] = [v |-> next, k |-> 1, best |-> 1000, w |-> 1, i |-> 0]]
    /\ next' = next + 1 /\ pushing' = pushing @@ (t :> next) /\ begun' = begun \cup {next}
    /\ pred' = (next :> (IF Kind = "stage" THEN Waiting \ InPush ELSE {})) @@ pred
    /\ UNCHANGED <<closed, tail, head, slot, ready, wpc, item, mainpc, handed, running, pushedBy>>
(* copying the item throws: before anything was claimed *)
Fail(t) ==
    /\ pc[t] = "scan" /\ loc[t].k = 1 /\ loc[t].v \in Faulty
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ pushing' = [x \in DOMAIN pushing \ {t} |-> pushing[x]] /\ begun' = begun \ {loc[t].v}
    /\ UNCHANGED <<closed, tail, head, slot, ready, loc, wpc, item, mainpc, next, handed, pred, running, pushedBy>>
(* the size of one queue is read per step, in order; the head may move in between *)
Scan(t) ==
    /\ pc[t] = "scan" /\ loc[t].v \notin Faulty
    /\ LET L == loc[t] s == tail[L.k] - head[L.k] IN
       /\ loc' = [loc EXCEPT ![t] = [L EXCEPT !.k = @ + 1, !.best = IF s < L.best THEN s ELSE @, !.w = IF s < L.best THEN L.k ELSE @]]
       /\ pc' = [pc EXCEPT ![t] = IF L.k = Workers THEN "claim" ELSE "scan"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, wpc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Claim(t) ==
    /\ pc[t] = "claim" /\ pc' = [pc EXCEPT ![t] = "wait"]
    /\ loc' = [loc EXCEPT ![t].i = tail[loc[t].w]] /\ tail' = [tail EXCEPT ![loc[t].w] = @ + 1]
    /\ pushedBy' = (loc[t].v :> loc[t].w) @@ pushedBy
    /\ UNCHANGED <<closed, head, slot, ready, wpc, item, mainpc, next, pushing, begun, handed, pred, running>>
Wait(t) ==
    /\ pc[t] = "wait" /\ loc[t].i - head[loc[t].w] < N /\ pc' = [pc EXCEPT ![t] = "write"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, loc, wpc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Write(t) ==
    /\ pc[t] = "write" /\ pc' = [pc EXCEPT ![t] = "ready"]
    /\ slot' = [slot EXCEPT ![loc[t].w][loc[t].i % N] = loc[t].v]
    /\ UNCHANGED <<closed, tail, head, ready, loc, wpc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Ready(t) ==
    /\ pc[t] = "ready" /\ pc' = [pc EXCEPT ![t] = "end"]
    /\ ready' = [ready EXCEPT ![loc[t].w][loc[t].i % N] = TRUE]
    /\ UNCHANGED <<closed, tail, head, slot, loc, wpc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
PEnd(t) ==
    /\ pc[t] = "end" /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ pushing' = [x \in DOMAIN pushing \ {t} |-> pushing[x]]
    /\ UNCHANGED <<closed, tail, head, slot, ready, loc, wpc, item, mainpc, next, begun, handed, pred, running, pushedBy>>
Top(w) ==     \* while (!closed || tail - head > 0): two reads
    /\ wpc[w] = "top" /\ wpc' = [wpc EXCEPT ![w] = IF ~closed THEN "inner" ELSE "top2"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Top2(w) ==
    /\ wpc[w] = "top2" /\ wpc' = [wpc EXCEPT ![w] = IF tail[w] > head[w] THEN "inner" ELSE "done"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Inner(w) ==
    /\ wpc[w] = "inner" /\ wpc' = [wpc EXCEPT ![w] = IF head[w] < tail[w] THEN "isready" ELSE "top"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
IsReady(w) ==
    /\ wpc[w] = "isready" /\ wpc' = [wpc EXCEPT ![w] = IF ready[w][head[w] % N] THEN "take" ELSE "inner"]
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Take(w) ==
    /\ wpc[w] = "take" /\ wpc' = [wpc EXCEPT ![w] = "unready"]
    /\ item' = [item EXCEPT ![w] = slot[w][head[w] % N]] /\ slot' = [slot EXCEPT ![w][head[w] % N] = None]
    /\ UNCHANGED <<closed, tail, head, ready, pc, loc, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Unready(w) ==
    /\ wpc[w] = "unready" /\ wpc' = [wpc EXCEPT ![w] = "advance"]
    /\ ready' = [ready EXCEPT ![w][head[w] % N] = FALSE]
    /\ UNCHANGED <<closed, tail, head, slot, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Advance(w) ==
    /\ wpc[w] = "advance" /\ wpc' = [wpc EXCEPT ![w] = "call"]
    /\ head' = [head EXCEPT ![w] = @ + 1]
    /\ UNCHANGED <<closed, tail, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, running, pushedBy>>
Call(w) ==
    /\ wpc[w] = "call" /\ wpc' = [wpc EXCEPT ![w] = "ret"]
    /\ handed' = Append(handed, item[w]) /\ running' = running \cup {item[w]}
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, pred, pushedBy>>
Ret(w) ==
    /\ wpc[w] = "ret" /\ wpc' = [wpc EXCEPT ![w] = "inner"] /\ running' = running \ {item[w]}
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, item, mainpc, next, pushing, begun, handed, pred, pushedBy>>
Close ==
    /\ mainpc = "use" /\ \A t \in Prods : pc[t] = "idle" /\ mainpc' = "join" /\ closed' = TRUE
    /\ UNCHANGED <<tail, head, slot, ready, pc, loc, wpc, item, next, pushing, begun, handed, pred, running, pushedBy>>
Join ==
    /\ mainpc = "join" /\ \A w \in W : wpc[w] = "done" /\ mainpc' = "closed"
    /\ UNCHANGED <<closed, tail, head, slot, ready, pc, loc, wpc, item, next, pushing, begun, handed, pred, running, pushedBy>>
Prod(t) == Fail(t) \/ Scan(t) \/ Claim(t) \/ Wait(t) \/ Write(t) \/ Ready(t) \/ PEnd(t)
Worker(w) == Top(w) \/ Top2(w) \/ Inner(w) \/ IsReady(w) \/ Take(w) \/ Unready(w) \/ Advance(w) \/ Call(w) \/ Ret(w)
Next == (\E t \in Prods : PBegin(t) \/ Prod(t)) \/ (\E w \in W : Worker(w)) \/ Close \/ Join
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ (\A t \in Prods : WF_vars(Prod(t))) /\ (\A w \in W : WF_vars(Worker(w))) /\ WF_vars(Join)
Refines == Abs!ASpec
(* the slot a worker takes from always holds the item whose number it is *)
Intact == \A w \in W : wpc[w] \in {"unready", "advance", "call", "ret"} => item[w] # None
SlotOwned == \A s, t \in Prods : s # t /\ {pc[s], pc[t]} \subseteq {"write", "ready"} /\ loc[s].w = loc[t].w => loc[s].i % N # loc[t].i % N
NoWriteBehindReader == \A t \in Prods, w \in W : pc[t] = "write" /\ loc[t].w = w => ~ready[w][loc[t].i % N] /\ slot[w][loc[t].i % N] = None
(* one producer: the queue chosen is no longer than any queue was when the push began *)
Even == Cardinality(Prods) = 1 =>
        \A t \in Prods : pc[t] = "claim" => \A w \in W : loc[t].best <= 1000 /\ tail[loc[t].w] - head[loc[t].w] <= loc[t].best
PushEnds == \A t \in Prods : pc[t] # "idle" ~> pc[t] = "idle"
Closes == mainpc = "join" ~> mainpc = "closed"
=============================================================================
