----------------------------- MODULE Containers -----------------------------
(* Standard containers sharing one fixed heap.  The heap is invisible except *)
(* that an operation may be refused (out of memory), which changes nothing.  *)
(* st maps the containers that exist to their contents; maps are the         *)
(* key-ordered sequence k1,v1,k2,v2,...                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

VARIABLES st, op
vars == <<st, op>>

Maps == {4, 5}
Sets == {8}

InsAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i+1, Len(s))        \* i elements before
DelAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i+2, Len(s))
Resize(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> 0]

Keys(s) == {s[2*i-1] : i \in 1..(Len(s) \div 2)}
KeyPos(s, k) == CHOOSE i \in 1..(Len(s) \div 2) : s[2*i-1] = k
Below(s, k) == Cardinality({q \in Keys(s) : q < k})
MapPut(s, k, v) == IF k \in Keys(s) THEN [s EXCEPT ![2*KeyPos(s, k)] = v]
                   ELSE SubSeq(s, 1, 2*Below(s, k)) \o <<k, v>> \o SubSeq(s, 2*Below(s, k)+1, Len(s))
MapDel(s, k) == IF k \notin Keys(s) THEN s
                ELSE SubSeq(s, 1, 2*Below(s, k)) \o SubSeq(s, 2*Below(s, k)+3, Len(s))
SetBelow(s, k) == Cardinality({i \in 1..Len(s) : s[i] < k})
SetAdd(s, k) == IF Contains(s, k) THEN s ELSE InsAt(s, SetBelow(s, k), k)
SetDel(s, k) == IF Contains(s, k) THEN DelAt(s, SetBelow(s, k)) ELSE s

(* contents after a successful operation k on container c with arguments a, b;
   "mov" leaves the source valid but unspecified, so it is not determined here *)
Effect(k, c, a, b) ==
    LET s == st[c] IN
    CASE k = "clr" -> [st EXCEPT ![c] = <<>>]
      [] k = "swp" -> [st EXCEPT ![c] = st[b], ![b] = s]
      [] k = "cpy" -> [st EXCEPT ![c] = st[b]]
      [] k = "put" -> [st EXCEPT ![c] = MapPut(s, a, b)]
      [] k = "ins" -> [st EXCEPT ![c] = IF a \in Keys(s) THEN s ELSE MapPut(s, a, b)]
      [] k = "add" -> [st EXCEPT ![c] = SetAdd(s, a)]
      [] k = "del" -> [st EXCEPT ![c] = IF c \in Maps THEN MapDel(s, a) ELSE SetDel(s, a)]
      [] k = "pb"  -> [st EXCEPT ![c] = Append(s, a)]
      [] k = "ppb" -> [st EXCEPT ![c] = SubSeq(s, 1, Len(s)-1)]
      [] k = "pf"  -> [st EXCEPT ![c] = <<a>> \o s]
      [] k = "ppf" -> [st EXCEPT ![c] = Tail(s)]
      [] k = "inn" -> [st EXCEPT ![c] = InsAt(s, a, b)]
      [] k = "era" -> [st EXCEPT ![c] = DelAt(s, a)]
      [] k = "rsz" -> [st EXCEPT ![c] = Resize(s, a)]
      [] k \in {"rsv", "shr"} -> st
      [] k = "spl" -> [st EXCEPT ![c] = s \o st[b], ![b] = <<>>]
      [] k = "srt" -> [st EXCEPT ![c] = SortSeq(s, <)]
      [] k = "rev" -> [st EXCEPT ![c] = Reverse(s)]

Create(c) == c \notin DOMAIN st /\ st' = st @@ (c :> <<>>)
Destroy(c) == c \in DOMAIN st /\ st' = [x \in DOMAIN st \ {c} |-> st[x]]
Apply(k, c, a, b) == c \in DOMAIN st /\ st' = Effect(k, c, a, b)

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MVal, MLen
MConts == {0, 2, 3, 4}
MInit == st = [c \in MConts |-> <<>>] /\ op = [k |-> "init"]
Bounded == \A c \in MConts : Len(st'[c]) <= (IF c \in Maps THEN 2*MLen ELSE MLen)
Do(k, c, a, b) == Apply(k, c, a, b) /\ op' = [k |-> k, c |-> c, a |-> a, b |-> b] /\ Bounded
MNext ==
    \/ \E c \in {0, 2} : \E a \in MVal : Do("pb", c, a, 0)
    \/ \E c \in {0, 2, 3} : st[c] # <<>> /\ (Do("ppb", c, 0, 0) \/ \E i \in 0..(Len(st[c])-1) : Do("era", c, i, 0))
    \/ \E c \in {2, 3} : \E a \in MVal : Do("pf", c, a, 0)
    \/ \E c \in {0} : \E i \in 0..Len(st[c]), a \in MVal : Do("inn", c, i, a)
    \/ \E c \in {0, 2}, n \in 0..MLen : Do("rsz", c, n, 0)
    \/ \E c \in {0, 4} : Do("clr", c, 0, 0)
    \/ Do("swp", 2, 0, 3) \/ Do("spl", 2, 0, 3) \/ Do("spl", 3, 0, 2) \/ Do("srt", 2, 0, 0)
    \/ \E k \in {1, 2} : Do("put", 4, k, k) \/ Do("del", 4, k, 0)
    \/ Do("shr", 0, 0, 0)
MSpec == MInit /\ [][MNext]_vars
View == st
ViewSeq == [i \in 1..4 |-> st[<<0, 2, 3, 4>>[i]]]
Emit == PrintT("EDGE " \o ToJson(<<ViewSeq, op', ViewSeq'>>))
MapsSorted == \A c \in Maps \cap DOMAIN st :
                 \A i, j \in 1..(Len(st[c]) \div 2) : i < j => st[c][2*i-1] < st[c][2*j-1]
Conserved ==   \* no operation except through its own container touches another
    [][\A c \in MConts : c # op'.c /\ ~(op'.k \in {"swp", "spl"} /\ c = op'.b) => st'[c] = st[c]]_vars
=============================================================================
