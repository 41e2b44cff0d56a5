---------------------------- MODULE PublisherConc ----------------------------
(* The unbounded publisher shared by threads: every call takes effect at one *)
(* instant between call and return (Lin).  The fine-grained model below it   *)
(* (the L actions) performs the steps of the implementation under a lock; TLC checks *)
(* that it refines the atomic one.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES reg,      \* registered observers in order
          pend,     \* thread -> [f, a, lin, res, list]
          got       \* thread -> what its call delivered so far, <<observer, datum>> in order
cvars == <<reg, pend, got>>
NewCall(f, a) == [f |-> f, a |-> a, lin |-> FALSE, res |-> "", list |-> <<>>]
Call(t, f, a) == /\ t \notin DOMAIN pend
                 /\ pend' = (t :> NewCall(f, a)) @@ pend /\ got' = (t :> <<>>) @@ got /\ UNCHANGED reg
Effect(p) == CASE p.f = "add" -> IF Contains(reg, p.a) THEN <<reg, "dup", <<>> >> ELSE <<Append(reg, p.a), "ok", <<>> >>
               [] p.f = "rem" -> IF Contains(reg, p.a) THEN <<SelectSeq(reg, LAMBDA x : x # p.a), "ok", <<>> >> ELSE <<reg, "missing", <<>> >>
               [] p.f = "not" -> <<reg, "ok", [i \in 1..Len(reg) |-> <<reg[i], p.a>>]>>
               [] p.f = "clr" -> << <<>>, "ok", [i \in 1..Len(reg) |-> <<reg[i], 0>>]>>
Lin(t) == /\ t \in DOMAIN pend /\ ~pend[t].lin
          /\ LET e == Effect(pend[t])
             IN reg' = e[1] /\ pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = e[2], ![t].list = e[3]]
          /\ UNCHANGED got
Deliver(t, o, a) == /\ t \in DOMAIN pend /\ got' = [got EXCEPT ![t] = Append(@, <<o, a>>)] /\ UNCHANGED <<reg, pend>>
Ret(t, r) == /\ t \in DOMAIN pend /\ pend[t].lin /\ pend[t].res = r /\ got[t] = pend[t].list
             /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]] /\ UNCHANGED <<reg, got>>

(* --------------------- fine-grained model with the lock ------------------- *)
CONSTANTS Threads, Observers, MaxCalls, Locked
VARIABLES owner,    \* thread holding the lock
          vec,      \* the registry as the implementation stores it
          pc, it, made
lvars == <<owner, vec, pc, it, made>>
Ops == {<<"add", o>> : o \in Observers} \cup {<<"rem", o>> : o \in Observers} \cup {<<"not", 7>>, <<"clr", 0>>}
LInit == /\ reg = <<>> /\ pend = << >> /\ got = [t \in Threads |-> <<>>]
         /\ owner = 0 /\ vec = <<>> /\ pc = [t \in Threads |-> "idle"] /\ it = [t \in Threads |-> [i |-> 0, end |-> 0]] /\ made = 0
LBegin(t) == /\ pc[t] = "idle" /\ made < MaxCalls /\ made' = made + 1
             /\ \E o \in Ops : Call(t, o[1], o[2])
             /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<owner, vec, it>>
(* the call takes effect when the lock is taken *)
LLock(t) == /\ pc[t] = "lock" /\ (Locked => owner = 0) /\ owner' = t /\ Lin(t)
            /\ pc' = [pc EXCEPT ![t] = pend[t].f] /\ it' = [it EXCEPT ![t] = [i |-> 1, end |-> Len(vec)]]
            /\ UNCHANGED <<vec, made>>
LAdd(t) == /\ pc[t] = "add" /\ vec' = (IF Contains(vec, pend[t].a) THEN vec ELSE Append(vec, pend[t].a))
           /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<cvars, owner, it, made>>
LRem(t) == /\ pc[t] = "rem" /\ vec' = SelectSeq(vec, LAMBDA x : x # pend[t].a)
           /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<cvars, owner, it, made>>
LNot(t) == /\ pc[t] = "not"
           /\ IF it[t].i <= Len(vec) /\ it[t].i <= it[t].end
              THEN /\ Deliver(t, vec[it[t].i], pend[t].a) /\ it' = [it EXCEPT ![t].i = @ + 1] /\ UNCHANGED pc
              ELSE pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<cvars, it>>
           /\ UNCHANGED <<owner, vec, made>>
LClr(t) == /\ pc[t] = "clr"
           /\ IF vec # <<>> THEN Deliver(t, Head(vec), 0) /\ vec' = Tail(vec) /\ UNCHANGED pc
              ELSE pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<cvars, vec>>
           /\ UNCHANGED <<owner, it, made>>
LUnlock(t) == /\ pc[t] = "unlock" /\ owner' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<cvars, vec, it, made>>
LRet(t) == /\ pc[t] = "ret" /\ pend' = [x \in DOMAIN pend \ {t} |-> pend[x]]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<reg, got, owner, vec, it, made>>
LNext == \E t \in Threads : LBegin(t) \/ LLock(t) \/ LAdd(t) \/ LRem(t) \/ LNot(t) \/ LClr(t) \/ LUnlock(t) \/ LRet(t)
LSpec == LInit /\ [][LNext]_<<cvars, lvars>> /\ \A t \in Threads : WF_<<cvars, lvars>>(LLock(t) \/ LAdd(t) \/ LRem(t) \/ LNot(t) \/ LClr(t) \/ LUnlock(t) \/ LRet(t))
(* at a return everything of the atomic call has been delivered, and nothing else *)
RetOk == \A t \in Threads : pc[t] = "ret" => got[t] = pend[t].list /\ pend[t].lin
SentSoFar == \A t \in DOMAIN pend : IsPrefix(got[t], pend[t].list)
Registry == owner = 0 => vec = reg
NoDup == IsInjective(reg)
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
