-------------------------------- MODULE Many --------------------------------
(* Tens of thousands of observers, subscribers, modules or cache entries:    *)
(* whole ranges a..b of identities are added, removed, notified, stored or   *)
(* looked up in one step, so that numbers no counter of 16 bits holds can be *)
(* judged line by line.  Iterated says that a step for a range is what the   *)
(* single steps (those of Publisher, Mediator and Lru) make of it.           *)
(*                                                                           *)
(* kind "reg": all = members in order of registration                        *)
(*      "lru": all = keys, most recently used first                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES kind, cap, all         \* cap 0: no limit
mvars == <<kind, cap, all>>

Ids(a, b, step) == IF a > b THEN <<>> ELSE [i \in 1..((b - a) \div step + 1) |-> a + (i - 1) * step]
In(x, a, b, step) == x >= a /\ x <= b /\ (x - a) % step = 0
Least(x, y) == IF x < y THEN x ELSE y
Without(s, a, b, step) == SelectSeq(s, LAMBDA x : ~In(x, a, b, step))
(* the part of s / of the range that is (not) in the other; marks: identity -> there *)
Marks(s, a, b) == LET here == ToSet(s) IN [x \in a..b |-> x \in here]
Known(s, a, b, step) == LET m == Marks(s, a, b) IN SelectSeq(Ids(a, b, step), LAMBDA x : m[x])
Unknown(s, a, b, step) == LET m == Marks(s, a, b) IN SelectSeq(Ids(a, b, step), LAMBDA x : ~m[x])

(* --------------------------------------------------- registries, in one go *)
Taken(s, a, b) == LET f == Unknown(s, a, b, 1)
                  IN IF cap = 0 THEN f ELSE SubSeq(f, 1, Least(Len(f), cap - Len(s)))
AddAll(a, b) == all' = all \o Taken(all, a, b) /\ UNCHANGED <<kind, cap>>
RemAll(a, b, step) == all' = Without(all, a, b, step) /\ UNCHANGED <<kind, cap>>
Clear == all' = <<>> /\ UNCHANGED <<kind, cap>>
(* --------------------------------------------------------- cache, in one go *)
Stored(s, a, b) == LET l == Reverse(Ids(a, b, 1)) \o Without(s, a, b, 1) IN SubSeq(l, 1, Least(Len(l), cap))
PutAll(a, b) == all' = Stored(all, a, b) /\ UNCHANGED <<kind, cap>>
Looked(s, a, b, step) == Reverse(Known(s, a, b, step)) \o Without(s, a, b, step)
GetAll(a, b, step) == all' = Looked(all, a, b, step) /\ UNCHANGED <<kind, cap>>

(* ------------------------------------------------------------ single steps *)
Add1(s, x) == IF Contains(s, x) \/ (cap # 0 /\ Len(s) >= cap) THEN s ELSE Append(s, x)
Rem1(s, x) == SelectSeq(s, LAMBDA y : y # x)
Put1(s, x) == LET l == <<x>> \o Rem1(s, x) IN SubSeq(l, 1, Least(Len(l), cap))
Get1(s, x) == IF Contains(s, x) THEN <<x>> \o Rem1(s, x) ELSE s

CONSTANTS MIds, MCaps
MInit == kind \in {"reg", "lru"} /\ cap \in MCaps /\ (kind = "lru" => cap > 0) /\ all = <<>>
MNext == \E a, b \in MIds, step \in 1..3 :
           IF kind = "reg" THEN AddAll(a, b) \/ RemAll(a, b, step) ELSE PutAll(a, b) \/ GetAll(a, b, step)
MSpec == MInit /\ [][MNext]_mvars
Bounded == (cap # 0 => Len(all) <= cap) /\ \A i, j \in 1..Len(all) : all[i] = all[j] => i = j
Iterated ==
    \A a, b \in MIds, step \in 1..3 :
      LET ids == Ids(a, b, step)
      IN IF kind = "reg"
         THEN /\ step = 1 => FoldLeft(Add1, all, ids) = all \o Taken(all, a, b)
              /\ FoldLeft(Rem1, all, ids) = Without(all, a, b, step)
         ELSE /\ step = 1 => FoldLeft(Put1, all, ids) = Stored(all, a, b)
              /\ FoldLeft(Get1, all, ids) = Looked(all, a, b, step)
=============================================================================
