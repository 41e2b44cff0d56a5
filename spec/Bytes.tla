------------------------------- MODULE Bytes --------------------------------
(* Numbers as byte strings.  A number is the sequence of its bytes, least    *)
(* significant first (Num); a wrapper's memory is that sequence or its       *)
(* reverse; an object is its bytes.  B01 (wrappers), B02 (raw serialisation).*)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Base, Widths      \* model: digits 0..Base-1
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mem(kind, num) == IF kind = "l" THEN num ELSE Rev(num)
Num(kind, mem) == IF kind = "l" THEN mem ELSE Rev(mem)
Swapped(num) == Rev(num)
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE    \* most significant byte decides
              ELSE LET n == Len(a) IN
                   IF a[n] # b[n] THEN a[n] < b[n] ELSE Less(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
(* ---------------------------------------------------------- bounded model *)
(* A wrapper in a buffer between two neighbours, used in every way.          *)
VARIABLES kind, num, mem, left, right, op
bvars == <<kind, num, mem, left, right, op>>
Digits == 0..(Base - 1)
Nums(w) == [1..w -> Digits]
RECURSIVE Value(_)
Value(n) == IF n = <<>> THEN 0 ELSE n[1] + Base * Value(Tail(n))
Init == /\ kind \in {"l", "m"} /\ \E w \in Widths : num = [i \in 1..w |-> 0]
        /\ mem = num /\ left = 1 /\ right = 1 /\ op = [e |-> "init"]
Assign == \E v \in Nums(Len(num)) : num' = v /\ mem' = Mem(kind, v) /\ op' = [e |-> "assign", v |-> v] /\ UNCHANGED <<kind, left, right>>
Overlay == \E b \in Nums(Len(num)) : mem' = b /\ num' = Num(kind, b) /\ op' = [e |-> "overlay", v |-> b] /\ UNCHANGED <<kind, left, right>>
SwapIt == num' = Swapped(num) /\ mem' = Mem(kind, num') /\ op' = [e |-> "swap"] /\ UNCHANGED <<kind, left, right>>
Next == Assign \/ Overlay \/ SwapIt
Spec == Init /\ [][Next]_bvars
View == <<kind, num, mem, left, right>>
Consistent == Num(kind, mem) = num /\ Mem(kind, num) = mem
Numeric == \A o \in Nums(Len(num)) : Less(num, o) <=> Value(num) < Value(o)
Order == Value(num) = Value(Rev(IF kind = "l" THEN Rev(mem) ELSE mem))
SwapTwice == Swapped(Swapped(num)) = num
Neighbours == left = 1 /\ right = 1
=============================================================================
