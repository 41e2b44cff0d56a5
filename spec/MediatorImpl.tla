---------------------------- MODULE MediatorImpl ----------------------------
(* How the manager keeps its modules: an array with a count, shifted down    *)
(* when a module is destroyed, and beside it an array of registration        *)
(* numbers that moves along; a delivery visits every module of another kind  *)
(* of sender and goes on behind the number it reached.  Refines Mediator.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Sends, Recvs, Cap, Kinds, Mods, Depth, MaxOrder,
          Along         \* FALSE: the numbers stay where they are when modules move (must fail)
VARIABLES mod, ord, cnt,        \* slot -> module and kind, slot -> number, slots in use
          next, frames,         \* frames: [t, whole, by, end, i, n, cb, hook]
          op
vars == <<mod, ord, cnt, next, frames, op>>
Slots == 1..Cap
None == [m |-> 0, k |-> 0]
Has(m) == \E i \in 1..cnt : mod[i].m = m
KindOf(m) == mod[CHOOSE i \in 1..cnt : mod[i].m = m].k
Top == frames[Len(frames)]
User == IF frames = <<>> THEN TRUE ELSE Top.cb
SetTop(f) == frames' = SubSeq(frames, 1, Len(frames) - 1) \o <<f>>
Init == /\ mod = [i \in Slots |-> None] /\ ord = [i \in Slots |-> 0] /\ cnt = 0 /\ next = 0 /\ frames = <<>>
        /\ op = [e |-> "init"]
Make(m, k) == /\ User /\ ~Has(m)
              /\ IF cnt = Cap THEN UNCHANGED <<mod, ord, cnt, next>>      \* refused before anything is written
                 ELSE /\ next < MaxOrder
                      /\ mod' = [mod EXCEPT ![cnt + 1] = [m |-> m, k |-> k]] /\ ord' = [ord EXCEPT ![cnt + 1] = next]
                      /\ cnt' = cnt + 1 /\ next' = next + 1
              /\ op' = [e |-> "make", m |-> m, k |-> k] /\ UNCHANGED frames
Kill(m) == /\ User /\ Has(m)
           /\ LET i == CHOOSE j \in 1..cnt : mod[j].m = m
              IN /\ mod' = [j \in Slots |-> IF j < i \/ j > cnt THEN mod[j] ELSE IF j = cnt THEN None ELSE mod[j + 1]]
                 /\ ord' = IF Along THEN [j \in Slots |-> IF j < i \/ j >= cnt THEN ord[j] ELSE ord[j + 1]] ELSE ord
           /\ cnt' = cnt - 1 /\ op' = [e |-> "kill", m |-> m] /\ UNCHANGED <<next, frames>>
Begin(t, by, whole) == frames' = Append(frames, [t |-> t, whole |-> whole, by |-> by, end |-> next, i |-> 1, n |-> -1, cb |-> FALSE, hook |-> by])
Send(m, whole) == /\ User /\ Len(frames) < Depth /\ Has(m) /\ Begin(Sends[KindOf(m)], TRUE, whole)
                  /\ op' = [e |-> IF whole THEN "send" ELSE "raw", m |-> m] /\ UNCHANGED <<mod, ord, cnt, next>>
MSend(t) == /\ User /\ Len(frames) < Depth /\ Begin(t, FALSE, TRUE) /\ op' = [e |-> "msend", t |-> t]
            /\ UNCHANGED <<mod, ord, cnt, next>>
At == frames # <<>> /\ ~Top.cb
Hook == /\ At /\ Top.hook /\ SetTop([Top EXCEPT !.hook = FALSE, !.cb = TRUE]) /\ op' = [e |-> "hook"]
        /\ UNCHANGED <<mod, ord, cnt, next>>
Loop == Top.i <= cnt /\ ord[Top.i] < Top.end
Takes(x, f) == Sends[x.k] # f.t /\ f.t \in Recvs[x.k] /\ f.whole
After(n) == IF \E i \in 1..cnt : ord[i] > n THEN CHOOSE i \in 1..cnt : ord[i] > n /\ \A j \in 1..(i - 1) : ord[j] <= n ELSE cnt + 1
Visit == /\ At /\ ~Top.hook /\ Loop
         /\ IF Takes(mod[Top.i], Top)
            THEN SetTop([Top EXCEPT !.cb = TRUE, !.n = ord[Top.i]]) /\ op' = [e |-> "recv", m |-> mod[Top.i].m]
            ELSE SetTop([Top EXCEPT !.i = After(ord[Top.i]), !.n = ord[Top.i]]) /\ op' = op
         /\ UNCHANGED <<mod, ord, cnt, next>>
Ret == /\ frames # <<>> /\ Top.cb
       /\ SetTop([Top EXCEPT !.cb = FALSE, !.i = IF Top.n = -1 THEN @ ELSE After(Top.n)]) /\ op' = [e |-> "ret"]
       /\ UNCHANGED <<mod, ord, cnt, next>>
End == /\ At /\ ~Top.hook /\ ~Loop /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ op' = [e |-> "end"]
       /\ UNCHANGED <<mod, ord, cnt, next>>
Next == \/ \E m \in Mods : (\E k \in Kinds : Make(m, k)) \/ Kill(m) \/ Send(m, TRUE) \/ Send(m, FALSE)
        \/ (\E t \in 1..2 : MSend(t)) \/ Hook \/ Visit \/ Ret \/ End
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- refinement *)
All == [i \in 1..cnt |-> [m |-> mod[i].m, k |-> mod[i].k, n |-> ord[i]]]
Names(s) == [i \in 1..Len(s) |-> s[i].m]
Wants(x, f) == f.whole /\ f.t \in Recvs[x.k] /\ Sends[x.k] # f.t
MStack == [j \in 1..Len(frames) |->
             LET f == frames[j]
             IN [t |-> f.t, b |-> 0, mod |-> f.by, cb |-> f.cb, hook |-> f.hook, whole |-> f.whole,
                 todo |-> Names(SelectSeq(All, LAMBDA x : Wants(x, f) /\ x.n > f.n /\ x.n < f.end)),
                 extra |-> Names(SelectSeq(All, LAMBDA x : Wants(x, f) /\ x.n >= f.end))]]
A == INSTANCE Mediator WITH cap <- Cap, mods <- [i \in 1..cnt |-> mod[i]], stack <- MStack,
                            MCap <- Cap, MKinds <- Kinds, MMods <- Mods, MDepth <- Depth
Refines == A!MSpec
Sorted == \A i, j \in 1..cnt : i < j => ord[i] < ord[j]
=============================================================================
