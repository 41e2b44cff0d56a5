-------------------------- MODULE PipelineSettled ---------------------------
(* A stage or pool observed only when nothing can move by itself: generates  *)
(* the directed scenarios (push, let the call of a worker finish, destroy).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Prods, Workers, N, MaxQ
VARIABLES q, busy, blk, op      \* per worker: items waiting, in a call, producers blocked
W == 1..Workers
Least(i) == \A j \in W : q[i] < q[j] \/ (q[i] = q[j] /\ i <= j)
Blocked == UNION {{blk[w][i] : i \in 1..Len(blk[w])} : w \in W}
Init == q = [w \in W |-> 0] /\ busy = [w \in W |-> FALSE] /\ blk = [w \in W |-> <<>>] /\ op = [e |-> "init"]
Push(t) == /\ t \notin Blocked
           /\ \E i \in W : /\ Least(i) /\ q[i] < MaxQ
                           /\ IF busy[i] THEN q' = [q EXCEPT ![i] = @ + 1] /\ UNCHANGED busy
                              ELSE busy' = [busy EXCEPT ![i] = TRUE] /\ UNCHANGED q
                           /\ blk' = IF busy[i] /\ q[i] + 1 > N THEN [blk EXCEPT ![i] = Append(@, t)] ELSE blk
           /\ op' = [e |-> "p", t |-> t]
Open(w) == /\ busy[w]
           /\ IF q[w] > 0 THEN q' = [q EXCEPT ![w] = @ - 1] /\ UNCHANGED busy
              ELSE busy' = [busy EXCEPT ![w] = FALSE] /\ UNCHANGED q
           /\ blk' = IF blk[w] = <<>> THEN blk ELSE [blk EXCEPT ![w] = Tail(@)]
           /\ op' = [e |-> "o", w |-> w]
Query == op' = [e |-> "q"] /\ UNCHANGED <<q, busy, blk>>
Next == (\E t \in Prods : Push(t)) \/ (\E w \in W : Open(w)) \/ Query
Spec == Init /\ [][Next]_<<q, busy, blk, op>>
View == <<q, busy, blk>>
Emit == PrintT("EDGE " \o ToJson(<<<<q, busy, blk>>, op', <<q', busy', blk'>>>>))
Consistent == \A w \in W : (q[w] > 0 => busy[w]) /\ (Len(blk[w]) = IF q[w] > N THEN q[w] - N ELSE 0)
=============================================================================
