------------------------------ MODULE LruConc -------------------------------
(* The LRU cache shared by threads: every store and lookup takes effect at   *)
(* one instant of the call (Lin), with the sequential meaning of Lru.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES cap, exc, exp, now,
          order, item,      \* keys, most recent first; key -> [v, t]
          pend              \* thread -> [f, k, v, lin, res, out]
cvars == <<cap, exc, exp, now, order, item, pend>>
ToFront(k) == <<k>> \o SelectSeq(order, LAMBDA x : x # k)
Has(k) == Contains(order, k)
Expired(k) == exp >= 0 /\ item[k].t + exp <= now      \* exp -1: never
Call(t, f, k, v) == /\ t \notin DOMAIN pend
                    /\ pend' = (t :> [f |-> f, k |-> k, v |-> v, lin |-> FALSE, res |-> "", out |-> 0]) @@ pend
                    /\ UNCHANGED <<cap, exc, exp, now, order, item>>
Done(t, r, o) == pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = r, ![t].out = o]
Put(t) == LET p == pend[t]
              o == ToFront(p.k)
              kept == IF Len(o) > cap THEN SubSeq(o, 1, cap) ELSE o
              i == (p.k :> [v |-> p.v, t |-> now]) @@ item
          IN order' = kept /\ item' = [x \in ToSet(kept) |-> i[x]] /\ Done(t, "ok", 0)
Get(t) == LET k == pend[t].k IN
          IF ~Has(k) THEN UNCHANGED <<order, item>> /\ Done(t, "absent", 0)
          ELSE IF Expired(k) THEN UNCHANGED <<order, item>> /\ Done(t, IF exc THEN "timeout" ELSE "absent", 0)
          ELSE order' = ToFront(k) /\ UNCHANGED item /\ Done(t, "val", item[k].v)
Lin(t) == t \in DOMAIN pend /\ ~pend[t].lin /\ (IF pend[t].f = "put" THEN Put(t) ELSE Get(t)) /\ UNCHANGED <<cap, exc, exp, now>>
Ret(t, r, v) == /\ t \in DOMAIN pend /\ pend[t].lin /\ pend[t].res = r /\ (r = "val" => pend[t].out = v)
                /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]] /\ UNCHANGED <<cap, exc, exp, now, order, item>>

(* fine-grained model: index and list are updated in separate steps under a lock *)
CONSTANTS Threads, MaxCalls, Keys, MCap, Locked
VARIABLES owner, list, map, pc, made, found
lvars == <<owner, list, map, pc, made, found>>
LInit == /\ cap = MCap /\ exc = TRUE /\ exp = 0 - 1 /\ now = 0 /\ order = <<>> /\ item = << >> /\ pend = << >>
         /\ owner = 0 /\ list = <<>> /\ map = {} /\ pc = [t \in Threads |-> "idle"] /\ made = 0 /\ found = [t \in Threads |-> FALSE]
LBegin(t) == /\ pc[t] = "idle" /\ made < MaxCalls /\ made' = made + 1
             /\ \E k \in Keys, f \in {"put", "get"} : Call(t, f, k, made)
             /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<owner, list, map, found>>
LLock(t) == /\ pc[t] = "lock" /\ (Locked => owner = 0) /\ owner' = t /\ Lin(t)
            /\ found' = [found EXCEPT ![t] = pend[t].k \in map]
            /\ pc' = [pc EXCEPT ![t] = "list"] /\ UNCHANGED <<list, map, made>>
LList(t) == LET k == pend[t].k IN
            /\ pc[t] = "list"
            /\ list' = IF pend[t].f = "put" \/ found[t] THEN <<k>> \o SelectSeq(list, LAMBDA x : x # k) ELSE list
            /\ pc' = [pc EXCEPT ![t] = "map"] /\ UNCHANGED <<cvars, owner, map, made, found>>
LMap(t) == /\ pc[t] = "map" /\ pc' = [pc EXCEPT ![t] = "evict"]
           /\ map' = IF pend[t].f = "put" THEN map \cup {pend[t].k} ELSE map
           /\ UNCHANGED <<cvars, owner, list, made, found>>
LEvict(t) == /\ pc[t] = "evict" /\ pc' = [pc EXCEPT ![t] = "unlock"]
             /\ IF Len(list) > cap THEN map' = map \ {list[Len(list)]} /\ list' = SubSeq(list, 1, Len(list) - 1)
                ELSE UNCHANGED <<map, list>>
             /\ UNCHANGED <<cvars, owner, made, found>>
LUnlock(t) == pc[t] = "unlock" /\ owner' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<cvars, list, map, made, found>>
LRet(t) == /\ pc[t] = "ret" /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cap, exc, exp, now, order, item, owner, list, map, made, found>>
LNext == \E t \in Threads : LBegin(t) \/ LLock(t) \/ LList(t) \/ LMap(t) \/ LEvict(t) \/ LUnlock(t) \/ LRet(t)
LSpec == LInit /\ [][LNext]_<<cvars, lvars>>
Agrees == owner = 0 => list = order /\ map = ToSet(order)
Capacity == Len(order) <= cap
Found == \A t \in Threads : pc[t] = "list" /\ pend[t].f = "get" => (found[t] <=> pend[t].res = "val")
=============================================================================
