------------------------------- MODULE Buffer -------------------------------
(* B02: structures serialised into, and read back from, a buffer of bytes.   *)
(* An object is its bytes; writing one replaces just the bytes under it, and *)
(* reading gives whatever bytes lie there.                                   *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES mem, op
Put(m, at, obj) == [i \in 1..Len(m) |-> IF i > at /\ i <= at + Len(obj) THEN obj[i - at] ELSE m[i]]
Get(m, at, w) == SubSeq(m, at + 1, at + w)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Fits(m, at, w) == at >= 0 /\ at + w <= Len(m)
Write(at, obj) == Fits(mem, at, Len(obj)) /\ mem' = Put(mem, at, obj)
Read(at, w) == Fits(mem, at, w) /\ UNCHANGED mem
Poke(at, b) == Write(at, <<b>>)
(* a number taken out, its bytes swapped, and put back *)
Turn(at, w) == Fits(mem, at, w) /\ mem' = Put(mem, at, Rev(Get(mem, at, w)))
(* an object read at one place and written at another *)
Move(at, to, w) == Fits(mem, at, w) /\ Write(to, Get(mem, at, w))
(* ---------------------------------------------------------- bounded model *)
CONSTANTS Size, Base, Widths
Digits == 0..(Base - 1)
Places(w) == 0..(Size - w)
Init == mem = [i \in 1..Size |-> 0] /\ op = [e |-> "init"]
Next == \E w \in Widths : \E at \in Places(w) :
           \/ \E obj \in [1..w -> Digits] : Write(at, obj) /\ op' = [e |-> "write", at |-> at, obj |-> obj]
           \/ Read(at, w) /\ op' = [e |-> "read", at |-> at, w |-> w, obj |-> Get(mem, at, w)]
           \/ w > 1 /\ Turn(at, w) /\ op' = [e |-> "turn", at |-> at, w |-> w]
           \/ \E to \in Places(w) : at # to /\ Move(at, to, w) /\ op' = [e |-> "move", at |-> at, to |-> to, w |-> w]
Spec == Init /\ [][Next]_<<mem, op>>
View == mem
Emit == PrintT("EDGE " \o ToJson(<<mem, op', mem'>>))
(* what was written is what is read; nothing beside it changes; turning twice changes nothing *)
RoundTrip == [][op'.e = "write" => Get(mem', op'.at, Len(op'.obj)) = op'.obj]_<<mem, op>>
Beside == [][op'.e \in {"write", "turn", "move"} =>
               LET o == op' at == IF o.e = "move" THEN o.to ELSE o.at w == IF o.e = "write" THEN Len(o.obj) ELSE o.w
               IN \A i \in 1..Size : (i <= at \/ i > at + w) => mem'[i] = mem[i]]_<<mem, op>>
Reading == [][op'.e = "read" => mem' = mem]_<<mem, op>>
TurnTwice == \A w \in Widths : \A at \in Places(w) : LET m == Put(mem, at, Rev(Get(mem, at, w))) IN Put(m, at, Rev(Get(m, at, w))) = mem
=============================================================================
