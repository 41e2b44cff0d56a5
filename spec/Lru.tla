-------------------------------- MODULE Lru ---------------------------------
(* Least-recently-used cache whose entries expire by the time since they     *)
(* were last stored.  Time is a pair <<seconds, nanoseconds>>.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES cap, exc, exp,    \* configuration
          now,
          order,            \* keys in the cache, most recently used first
          item,             \* key -> [v, t]: value and time of the last store
          op
lvars == <<cap, exc, exp, now, order, item>>
Giga == 1000000000
Plus(a, b) == IF a[2] + b[2] >= Giga THEN <<a[1] + b[1] + 1, a[2] + b[2] - Giga>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Leq(a, b) == IF a[1] = b[1] THEN a[2] <= b[2] ELSE a[1] < b[1]

Has(k) == Contains(order, k)
ToFront(k) == <<k>> \o SelectSeq(order, LAMBDA x : x # k)
Never == <<-1, 0>>        \* the longest duration there is
Expired(k) == exp # Never /\ Leq(Plus(item[k].t, exp), now)
Put(k, v) ==
    LET o == ToFront(k)
        kept == IF Len(o) > cap THEN SubSeq(o, 1, cap) ELSE o
        it == (k :> [v |-> v, t |-> now]) @@ item
    IN /\ order' = kept
       /\ item' = [x \in ToSet(kept) |-> it[x]]
       /\ UNCHANGED <<cap, exc, exp, now>>
(* what a lookup must answer *)
Answer(k) == IF ~Has(k) THEN "absent"
             ELSE IF ~Expired(k) THEN "val"
             ELSE IF exc THEN "timeout" ELSE "absent"
Get(k) == /\ order' = IF Answer(k) = "val" THEN ToFront(k) ELSE order
          /\ UNCHANGED <<cap, exc, exp, now, item>>
Pass(d) == now' = Plus(now, d) /\ UNCHANGED <<cap, exc, exp, order, item>>

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MCap, MExp, MKeys, MVals, MMaxAge
MInit == cap = MCap /\ exc = TRUE /\ exp = <<MExp, 0>> /\ now = <<0, 0>> /\ order = <<>> /\ item = << >> /\ op = [e |-> "init"]
Age(k) == now[1] - item[k].t[1]
MNext ==
    \/ \E k \in MKeys, v \in MVals : Put(k, v) /\ op' = [e |-> "put", k |-> k, v |-> v]
    \/ \E k \in MKeys : Get(k) /\ op' = [e |-> "get", k |-> k, res |-> Answer(k)]
    \/ Pass(<<1, 0>>) /\ op' = [e |-> "adv"]
MSpec == MInit /\ [][MNext]_<<lvars, op>>
Min2(a, b) == IF a < b THEN a ELSE b
(* only ages matter: states are equal up to the clock, ages are capped *)
View == <<order, [k \in DOMAIN item |-> <<item[k].v, Min2(Age(k), MMaxAge)>>]>>
ViewOf == <<order, [i \in 1..Len(order) |-> <<item[order[i]].v, Min2(now[1] - item[order[i]].t[1], MMaxAge)>>]>>
Emit == PrintT("EDGE " \o ToJson(<<ViewOf, op', ViewOf'>>))

CapacityKept == Len(order) <= cap /\ DOMAIN item = ToSet(order) /\ IsInjective(order)
(* eviction: storing a new key into a full cache drops exactly the last key  *)
EvictsLru == [][op'.e = "put" =>
                IF Has(op'.k) THEN ToSet(order') = ToSet(order)
                ELSE ToSet(order') = ToSet(IF Len(order) = cap THEN SubSeq(order, 1, cap - 1) ELSE order) \cup {op'.k}]_<<lvars, op>>
(* expiry: a value is answered only for a younger entry, lookups never change ages *)
ValueYoung == [][op'.e = "get" => ((op'.res = "val") <=> (op'.k \in DOMAIN item /\ now[1] - item[op'.k].t[1] < MExp))]_<<lvars, op>>
AgesKept == [][\A k \in DOMAIN item \cap DOMAIN item' : op'.e # "put" \/ op'.k # k => item'[k] = item[k]]_<<lvars, op>>
=============================================================================
