------------------------------ MODULE LruTrace ------------------------------
(* Prop L01: values, absence and eviction.  L02: expiry only (any value; an  *)
(* entry may be missing once more keys were stored than fit).                *)
EXTENDS Lru, IOUtils
CONSTANT Prop
VARIABLES l, stored
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == /\ l = 1 /\ cap = 0 /\ exc = TRUE /\ exp = <<0, 0>> /\ now = <<0, 0>> /\ order = <<>> /\ item = << >>
         /\ op = [e |-> "none"] /\ stored = {}
Same == UNCHANGED lvars
Drop(k) == /\ order' = SelectSeq(order, LAMBDA x : x # k)
           /\ item' = [x \in DOMAIN item \ {k} |-> item[x]]
           /\ UNCHANGED <<cap, exc, exp, now>>
(* L02 keeps every entry ever stored until it is seen missing *)
Keep(k, v) == /\ order' = ToFront(k)
              /\ item' = (k :> [v |-> v, t |-> now]) @@ item
              /\ UNCHANGED <<cap, exc, exp, now>>
Get1 == IF Has(Ev.k) /\ Expired(Ev.k)
        THEN \/ Ev.res = Answer(Ev.k) /\ Same
             \/ Ev.res = "val" /\ Ev.v = item[Ev.k].v /\ order' = ToFront(Ev.k) /\ UNCHANGED <<cap, exc, exp, now, item>>
        ELSE Ev.res = Answer(Ev.k) /\ (Ev.res = "val" => Ev.v = item[Ev.k].v) /\ Get(Ev.k)
Get2 == CASE Ev.res = "val" -> Has(Ev.k) /\ ~Expired(Ev.k) /\ Same
          [] Ev.res = "timeout" -> exc /\ Has(Ev.k) /\ Expired(Ev.k) /\ Same
          [] Ev.res = "absent" -> IF ~Has(Ev.k) THEN Same
                                  ELSE IF Cardinality(stored) > cap THEN Drop(Ev.k)
                                  ELSE Expired(Ev.k) /\ ~exc /\ Same
          [] OTHER -> FALSE
Step == CASE Ev.e = "init" -> /\ cap' = Ev.cap /\ exc' = Ev.exc /\ exp' = <<Ev.xs, Ev.xn>> /\ now' = <<0, 0>>
                              /\ order' = <<>> /\ item' = << >> /\ stored' = {}
          [] Ev.e = "put" -> /\ Ev.res = "ok" /\ stored' = stored \cup {Ev.k}
                             /\ IF Prop = "L01" THEN Put(Ev.k, Ev.v) ELSE Keep(Ev.k, Ev.v)
          [] Ev.e = "get" -> stored' = stored /\ (IF Prop = "L01" THEN Get1 ELSE Get2)
          [] Ev.e = "adv" -> stored' = stored /\ Pass(<<Ev.s, Ev.n>>)
          [] Ev.e = "period" -> (Prop = "L02" => <<Ev.s, Ev.n>> = exp) /\ Same /\ stored' = stored
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_<<lvars, op, l, stored>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
