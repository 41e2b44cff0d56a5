----------------------------- MODULE ValueConc ------------------------------
(* An observable value updated by threads, with a fixed set of subscribers.  *)
(* Each operation takes effect at one instant (Lin); its own result is       *)
(* delivered once to every subscriber before it returns.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES val, subs, modulus,   \* modulus 0: plain integers
          pend,                 \* thread -> [f, a, lin, res, new]
          got                   \* thread -> deliveries <<subscriber, value>>
cvars == <<val, subs, modulus, pend, got>>
Norm(x) == IF modulus = 0 THEN x ELSE x % modulus
(* <<new value, result, notifies>> *)
Effect(p) == CASE p.f = "add" -> <<Norm(val + p.a), Norm(val + p.a), TRUE>>
               [] p.f = "sub" -> <<Norm(val - p.a), Norm(val - p.a), TRUE>>
               [] p.f = "inc" -> <<Norm(val + 1), Norm(val + 1), TRUE>>
               [] p.f = "dec" -> <<Norm(val - 1), Norm(val - 1), TRUE>>
               [] p.f = "pinc" -> <<Norm(val + 1), val, TRUE>>
               [] p.f = "pdec" -> <<Norm(val - 1), val, TRUE>>
               [] p.f = "set" -> <<Norm(p.a), Norm(p.a), TRUE>>
               [] p.f = "get" -> <<val, val, FALSE>>
Call(t, f, a) == /\ t \notin DOMAIN pend
                 /\ pend' = (t :> [f |-> f, a |-> a, lin |-> FALSE, res |-> 0, new |-> 0, tell |-> FALSE]) @@ pend
                 /\ got' = (t :> <<>>) @@ got /\ UNCHANGED <<val, subs, modulus>>
Lin(t) == /\ t \in DOMAIN pend /\ ~pend[t].lin
          /\ LET e == Effect(pend[t])
             IN val' = e[1] /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = e[2], ![t].new = e[1], ![t].tell = e[3]]
          /\ UNCHANGED <<got, subs, modulus>>
Deliver(t, o, v) == /\ t \in DOMAIN pend /\ got' = [got EXCEPT ![t] = Append(@, <<o, v>>)] /\ UNCHANGED <<val, subs, modulus, pend>>
ToldAll(t) == /\ Len(got[t]) = (IF pend[t].tell THEN Cardinality(subs) ELSE 0)
              /\ pend[t].tell => ToSet(got[t]) = {<<o, pend[t].new>> : o \in subs}
Ret(t, r) == /\ t \in DOMAIN pend /\ pend[t].lin /\ pend[t].res = r /\ ToldAll(t)
             /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]] /\ UNCHANGED <<val, subs, modulus, got>>

(* fine-grained model: one atomic read-modify-write, then the subscribers are told one by one *)
CONSTANTS Threads, MaxCalls, Amounts, Subs, Atomic
VARIABLES pc, tmp, todo, made, shared, total
lvars == <<pc, tmp, todo, made, shared, total>>
LInit == /\ val = 0 /\ subs = Subs /\ modulus = 0 /\ pend = << >> /\ got = [t \in Threads |-> <<>>]
         /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> 0] /\ todo = [t \in Threads |-> {}] /\ made = 0 /\ shared = 0 /\ total = 0
LBegin(t) == /\ pc[t] = "idle" /\ made < MaxCalls /\ made' = made + 1
             /\ \E a \in Amounts, f \in {"add", "sub"} : Call(t, f, a)
             /\ pc' = [pc EXCEPT ![t] = "rmw"] /\ UNCHANGED <<tmp, todo, shared, total>>
Delta(t) == IF pend[t].f = "add" THEN pend[t].a ELSE 0 - pend[t].a
LRmw(t) == /\ pc[t] = "rmw" /\ Lin(t) /\ total' = total + Delta(t)
           /\ IF Atomic THEN shared' = shared + Delta(t) /\ tmp' = [tmp EXCEPT ![t] = shared + Delta(t)] /\ pc' = [pc EXCEPT ![t] = "tell"]
              ELSE tmp' = [tmp EXCEPT ![t] = shared + Delta(t)] /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED shared
           /\ todo' = [todo EXCEPT ![t] = subs] /\ UNCHANGED made
LStore(t) == pc[t] = "store" /\ shared' = tmp[t] /\ pc' = [pc EXCEPT ![t] = "tell"] /\ UNCHANGED <<cvars, tmp, todo, made, total>>
LTell(t) == /\ pc[t] = "tell" /\ todo[t] # {}
            /\ LET o == CHOOSE o \in todo[t] : \A x \in todo[t] : o <= x
               IN Deliver(t, o, tmp[t]) /\ todo' = [todo EXCEPT ![t] = @ \ {o}]
            /\ UNCHANGED <<pc, tmp, made, shared, total>>
LRet(t) == /\ pc[t] = "tell" /\ todo[t] = {} /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<val, subs, modulus, got, tmp, todo, made, shared, total>>
LNext == \E t \in Threads : LBegin(t) \/ LRmw(t) \/ LStore(t) \/ LTell(t) \/ LRet(t)
LSpec == LInit /\ [][LNext]_<<cvars, lvars>>
NothingLost == (\A t \in Threads : pc[t] # "store") => shared = val /\ val = total
RetOk == \A t \in Threads : pc[t] = "tell" /\ todo[t] = {} => tmp[t] = pend[t].res /\ ToldAll(t)
=============================================================================
