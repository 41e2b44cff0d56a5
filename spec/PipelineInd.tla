---------------------------- MODULE PipelineInd ----------------------------
(* The ring buffer of a stage (of one worker of a pool) for any number of    *)
(* items: an item is the number its push claimed.  Apalache shows IndInv to   *)
(* be inductive, so InOrder holds however long the stage lives, for N slots   *)
(* and three producers.                                                       *)
EXTENDS Integers
CONSTANT
    \* @type: Int;
    N,
    \* @type: Int;
    Early       \* 1: the wait for a slot ends one item too early
Prods == {1, 2, 3}
P == 3
VARIABLES
    \* @type: Bool;
    closed,
    \* @type: Int;
    tail,
    \* @type: Int;
    head,
    \* @type: Int -> Int;
    slot,
    \* @type: Int -> Bool;
    ready,
    \* @type: Int -> Str;
    pc,
    \* @type: Int -> Int;
    num,
    \* @type: Str;
    wpc,
    \* @type: Int;
    item,
    \* @type: Int;
    calls
None == -1
Slots == 0..(N - 1)
CInit1 == N = 1 /\ Early = 0
CInit2 == N = 2 /\ Early = 0
CInit3 == N = 3 /\ Early = 0
CBroken == N = 2 /\ Early = 1
Init == /\ closed = FALSE /\ tail = 0 /\ head = 0 /\ slot = [i \in Slots |-> None] /\ ready = [i \in Slots |-> FALSE]
        /\ pc = [t \in Prods |-> "idle"] /\ num = [t \in Prods |-> 0]
        /\ wpc = "top" /\ item = None /\ calls = 0
Claim(t) == /\ pc[t] = "idle" /\ ~closed
            /\ pc' = [pc EXCEPT ![t] = "wait"] /\ num' = [num EXCEPT ![t] = tail] /\ tail' = tail + 1
            /\ UNCHANGED <<closed, head, slot, ready, wpc, item, calls>>
Wait(t) == /\ pc[t] = "wait" /\ num[t] - head < N + Early /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<closed, tail, head, slot, ready, num, wpc, item, calls>>
Write(t) == /\ pc[t] = "write" /\ pc' = [pc EXCEPT ![t] = "ready"] /\ slot' = [slot EXCEPT ![num[t] % N] = num[t]]
            /\ UNCHANGED <<closed, tail, head, ready, num, wpc, item, calls>>
Ready(t) == /\ pc[t] = "ready" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ ready' = [ready EXCEPT ![num[t] % N] = TRUE]
            /\ UNCHANGED <<closed, tail, head, slot, num, wpc, item, calls>>
Close == /\ ~closed /\ (\A t \in Prods : pc[t] = "idle") /\ closed' = TRUE
         /\ UNCHANGED <<tail, head, slot, ready, pc, num, wpc, item, calls>>
Top == /\ wpc = "top" /\ wpc' = (IF ~closed THEN "inner" ELSE "top2")
       /\ UNCHANGED <<closed, tail, head, slot, ready, pc, num, item, calls>>
Top2 == /\ wpc = "top2" /\ wpc' = (IF tail > head THEN "inner" ELSE "done")
        /\ UNCHANGED <<closed, tail, head, slot, ready, pc, num, item, calls>>
Inner == /\ wpc = "inner" /\ wpc' = (IF head < tail THEN "isready" ELSE "top")
         /\ UNCHANGED <<closed, tail, head, slot, ready, pc, num, item, calls>>
IsReady == /\ wpc = "isready" /\ wpc' = (IF ready[head % N] THEN "take" ELSE "inner")
           /\ UNCHANGED <<closed, tail, head, slot, ready, pc, num, item, calls>>
Take == /\ wpc = "take" /\ wpc' = "unready" /\ item' = slot[head % N] /\ slot' = [slot EXCEPT ![head % N] = None]
        /\ UNCHANGED <<closed, tail, head, ready, pc, num, calls>>
Unready == /\ wpc = "unready" /\ wpc' = "advance" /\ ready' = [ready EXCEPT ![head % N] = FALSE]
           /\ UNCHANGED <<closed, tail, head, slot, pc, num, item, calls>>
Advance == /\ wpc = "advance" /\ wpc' = "call" /\ head' = head + 1
           /\ UNCHANGED <<closed, tail, slot, ready, pc, num, item, calls>>
Call == /\ wpc = "call" /\ wpc' = "inner" /\ calls' = calls + 1
        /\ UNCHANGED <<closed, tail, head, slot, ready, pc, num, item>>
Next == \/ \E t \in Prods : Claim(t) \/ Wait(t) \/ Write(t) \/ Ready(t)
        \/ Close \/ Top \/ Top2 \/ Inner \/ IsReady \/ Take \/ Unready \/ Advance \/ Call
(* ------------------------------------------------------------- properties *)
(* the k-th call gets the item whose push was the k-th to claim; nothing is left when the worker ends *)
InOrder == /\ wpc = "call" => item = calls
           /\ wpc = "done" => closed /\ calls = tail
(* -------------------------------------------------------------- invariant *)
Labels == {"idle", "wait", "write", "ready"}
WLabels == {"top", "top2", "inner", "isready", "take", "unready", "advance", "call", "done"}
Holds(t, k) == pc[t] # "idle" /\ num[t] = k
\* the slot of item k holds it and says so
Stored(k) == ready[k % N] /\ slot[k % N] = k
IndInv ==
    /\ wpc \in WLabels /\ \A t \in Prods : pc[t] \in Labels
    /\ 0 <= head /\ head <= tail /\ tail <= head + N + P
    /\ calls = IF wpc = "call" THEN head - 1 ELSE head
    /\ wpc = "call" => item = head - 1
    /\ wpc \in {"unready", "advance"} => item = head
    /\ wpc \in {"isready", "take", "unready", "advance"} => head < tail
    /\ wpc = "top2" => closed
    /\ wpc = "done" => closed /\ head = tail
    /\ (closed => \A t \in Prods : pc[t] = "idle")
    /\ \A t \in Prods : pc[t] # "idle" => head <= num[t] /\ num[t] < tail
    /\ \A t \in Prods : pc[t] \in {"write", "ready"} => num[t] < head + N
    /\ \A s, t \in Prods : s # t /\ pc[s] # "idle" /\ pc[t] # "idle" => num[s] # num[t]
    /\ \A t \in Prods : pc[t] = "ready" => slot[num[t] % N] = num[t]
    \* every number claimed and not handed out yet is with its producer or in its slot, never both
    /\ \A d \in 0..(N + P - 1) : head + d < tail =>
          LET k == head + d
              held == \E t \in Prods : Holds(t, k)
          IN IF d = 0 /\ wpc \in {"unready", "advance"} THEN ~held /\ slot[k % N] = None /\ ready[k % N] = (wpc = "unready")
             ELSE held \/ (d < N /\ Stored(k))
    /\ wpc = "take" => Stored(head)
    \* a slot marked ready is one whose item is stored or being taken: nothing else is marked
    /\ \A d \in 0..(N - 1) : ready[(head + d) % N] =>
          /\ head + d < tail
          /\ ~(\E t \in Prods : Holds(t, head + d))
IndInit ==
    /\ closed \in BOOLEAN /\ tail \in Int /\ head \in Int /\ item \in Int /\ calls \in Int
    /\ slot \in [Slots -> Int] /\ ready \in [Slots -> BOOLEAN]
    /\ pc \in [Prods -> Labels] /\ num \in [Prods -> Int] /\ wpc \in WLabels
    /\ IndInv
=============================================================================
