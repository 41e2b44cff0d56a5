--------------------------- MODULE PublisherImpl ---------------------------
(* How publishers, values and the mediator walk their lists while callbacks  *)
(* change them: every registration has a number that only grows; a delivery  *)
(* goes on behind the number it reached last, and up to the number that was  *)
(* next when it began.  One publisher; refines Publisher.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Kind, Cap, Obs, Depth, Nested, MaxOrder,
          ByNumber      \* FALSE: a delivery goes on at the next index (must fail)
VARIABLES list,         \* [o, n]: observers and their numbers, in order of registration
          next,         \* the number of the next registration
          frames,       \* calls in progress: [t, end, i, n, cb]
          op
vars == <<list, next, frames, op>>
Has(o) == \E k \in 1..Len(list) : list[k].o = o
Top == frames[Len(frames)]
User == IF frames = <<>> THEN TRUE ELSE Top.cb # -1
May(c) == IF frames = <<>> THEN TRUE ELSE User /\ c \in Nested
SetTop(f) == frames' = SubSeq(frames, 1, Len(frames) - 1) \o <<f>>
Pop == frames' = SubSeq(frames, 1, Len(frames) - 1)
Init == list = <<>> /\ next = 0 /\ frames = <<>> /\ op = [e |-> "init"]
Add(o) == /\ May("add")
          /\ IF (Kind \in {"os", "vs"} /\ Len(list) >= Cap) \/ Has(o) THEN UNCHANGED <<list, next>>
             ELSE next < MaxOrder /\ list' = Append(list, [o |-> o, n |-> next]) /\ next' = next + 1
          /\ op' = [e |-> "add", p |-> 1, o |-> o] /\ UNCHANGED frames
Rem(o) == /\ May("rem") /\ list' = SelectSeq(list, LAMBDA r : r.o # o)
          /\ op' = [e |-> "rem", p |-> 1, o |-> o] /\ UNCHANGED <<next, frames>>
Inside == \E k \in 1..Len(frames) : frames[k].t = "n"
Notify == /\ May("notify") /\ Len(frames) < Depth
          /\ frames' = Append(frames, [t |-> IF Kind = "os" /\ Inside THEN "r" ELSE "n", end |-> next, i |-> 1, n |-> -1, cb |-> -1])
          /\ op' = [e |-> "nbeg", p |-> 1] /\ UNCHANGED <<list, next>>
Loop == Top.i <= Len(list) /\ list[Top.i].n < Top.end
Got == /\ frames # <<>> /\ Top.t = "n" /\ Top.cb = -1 /\ Loop
       /\ SetTop([Top EXCEPT !.cb = list[Top.i].o, !.n = list[Top.i].n])
       /\ op' = [e |-> "got", p |-> 1, o |-> list[Top.i].o] /\ UNCHANGED <<list, next>>
After(n) == Cardinality({k \in 1..Len(list) : list[k].n <= n}) + 1     \* the first later registration
Ret == /\ frames # <<>> /\ Top.cb # -1
       /\ SetTop([Top EXCEPT !.cb = -1, !.i = IF Top.t # "n" THEN @ ELSE IF ByNumber THEN After(Top.n) ELSE @ + 1])
       /\ op' = [e |-> "ret"] /\ UNCHANGED <<list, next>>
NotifyEnd == /\ frames # <<>> /\ Top.cb = -1 /\ Top.t \in {"n", "r"} /\ (Top.t = "n" => ~Loop)
             /\ Pop /\ op' = [e |-> "nend", p |-> 1] /\ UNCHANGED <<list, next>>
Clear == /\ May("clear") /\ Len(frames) < Depth
         /\ frames' = Append(frames, [t |-> "c", end |-> next, i |-> 0, n |-> -1, cb |-> -1])
         /\ op' = [e |-> "cbeg", p |-> 1] /\ UNCHANGED <<list, next>>
More == Len(list) > 0 /\ list[1].n < Top.end
Disc == /\ frames # <<>> /\ Top.t = "c" /\ Top.cb = -1 /\ More
        /\ list' = Tail(list) /\ SetTop([Top EXCEPT !.cb = list[1].o])
        /\ op' = [e |-> "disc", p |-> 1, o |-> list[1].o] /\ UNCHANGED next
ClearEnd == /\ frames # <<>> /\ Top.t = "c" /\ Top.cb = -1 /\ ~More
            /\ Pop /\ op' = [e |-> "cend", p |-> 1] /\ UNCHANGED <<list, next>>
Next == (\E o \in Obs : Add(o) \/ Rem(o)) \/ Notify \/ Got \/ Ret \/ NotifyEnd \/ Clear \/ Disc \/ ClearEnd
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------- refinement *)
Names(s) == [k \in 1..Len(s) |-> s[k].o]
Cleared == LET E == {frames[k].end : k \in {j \in 1..Len(frames) : frames[j].t = "c"}}
           IN IF E = {} THEN 0 ELSE CHOOSE e \in E : \A f \in E : f <= e
(* what a delivery still reaches: registered before it began, behind where it is, not being cleared from inside it *)
Todo(k) == LET f == frames[k]
               taken == {frames[j].end : j \in {j \in (k + 1)..Len(frames) : frames[j].t = "c"}}
           IN IF f.t # "n" THEN <<>>
              ELSE Names(SelectSeq(list, LAMBDA r : r.n > f.n /\ r.n < f.end /\ \A e \in taken : r.n >= e))
MReg == [p \in {1} |-> Names(SelectSeq(list, LAMBDA r : r.n >= Cleared))]
MPend == [p \in {1} |-> Names(SelectSeq(list, LAMBDA r : r.n < Cleared))]
MStack == [k \in 1..Len(frames) |-> [p |-> 1, t |-> frames[k].t, d |-> 0, cb |-> frames[k].cb, todo |-> Todo(k)]]
A == INSTANCE Publisher WITH kind <- Kind, cap <- Cap, reg <- MReg, pend <- MPend, stack <- MStack,
                             MKind <- Kind, MCap <- Cap, MPubs <- {1}, MObs <- Obs, MDepth <- Depth, MNested <- Nested
Refines == A!MSpec
Sorted == \A j, k \in 1..Len(list) : j < k => list[j].n < list[k].n
Small == next <= MaxOrder
=============================================================================
