------------------------------ MODULE Mediator ------------------------------
(* A manager routes typed messages among modules.  Kinds of module are given *)
(* by the one type they send and the types they receive.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Sends, Recvs        \* kind -> type, kind -> set of types
VARIABLES cap, mods,          \* registered modules [m, k] in registration order
          stack,              \* messages being delivered: [t, b, todo, extra, whole, hook, mod, cb]; extra: modules
                              \* created since, which may or may not receive it too;
                              \* whole: the bytes are those of a message of type t
          op
mvars == <<cap, mods, stack>>
Top == stack[Len(stack)]
Idle == IF stack = <<>> THEN TRUE ELSE Top.cb
SetTop(f) == stack' = SubSeq(stack, 1, Len(stack)-1) \o <<f>>
Takers(t) == LET s == SelectSeq(mods, LAMBDA x : t \in Recvs[x.k] /\ Sends[x.k] # t)
             IN [i \in 1..Len(s) |-> s[i].m]
Registered(m) == \E i \in 1..Len(mods) : mods[i].m = m
KindOf(m) == mods[CHOOSE i \in 1..Len(mods) : mods[i].m = m].k

Register(m, k) ==
    /\ mods' = Append(mods, [m |-> m, k |-> k])
    /\ stack' = [i \in 1..Len(stack) |-> IF stack[i].whole /\ stack[i].t \in Recvs[k] /\ Sends[k] # stack[i].t
                                         THEN [stack[i] EXCEPT !.extra = Append(@, m)] ELSE stack[i]]
Make(m, k) == /\ ~Registered(m)
              /\ IF Len(mods) < cap THEN Register(m, k) ELSE UNCHANGED <<mods, stack>>
              /\ UNCHANGED cap
Without(s, m) == SelectSeq(s, LAMBDA x : x # m)
Kill(m) == /\ Registered(m) /\ mods' = SelectSeq(mods, LAMBDA x : x.m # m) /\ UNCHANGED cap
           /\ stack' = [i \in 1..Len(stack) |-> [stack[i] EXCEPT !.todo = Without(@, m), !.extra = Without(@, m)]]
(* hook: the manager's data hook still has to see the message *)
Sending(t, b, byModule, whole) ==
    /\ stack' = Append(stack, [t |-> t, b |-> b, todo |-> IF whole THEN Takers(t) ELSE <<>>, extra |-> <<>>, whole |-> whole,
                               hook |-> byModule, mod |-> byModule, cb |-> FALSE])
    /\ UNCHANGED <<cap, mods>>
SendBegin(t, b, byModule) == Sending(t, b, byModule, TRUE)
(* bytes that are not of the size of the type reach the hook and no module *)
RawBegin(t, b, whole) == Sending(t, b, TRUE, whole)
Hook(t, b) == /\ stack # <<>> /\ ~Top.cb /\ Top.t = t /\ Top.b = b
              /\ Top.hook \/ ~Top.mod        \* nothing is said about hooks for the manager's own messages
              /\ SetTop([Top EXCEPT !.hook = FALSE, !.cb = TRUE]) /\ UNCHANGED <<cap, mods>>
Receive(m, t, b) ==
    /\ stack # <<>> /\ ~Top.cb /\ ~Top.hook /\ Top.t = t /\ Top.b = b
    /\ IF Top.todo # <<>>
       THEN Head(Top.todo) = m /\ SetTop([Top EXCEPT !.todo = Tail(@), !.cb = TRUE])
       ELSE Contains(Top.extra, m) /\ SetTop([Top EXCEPT !.extra = Without(@, m), !.cb = TRUE])
    /\ UNCHANGED <<cap, mods>>
Ret == stack # <<>> /\ Top.cb /\ SetTop([Top EXCEPT !.cb = FALSE]) /\ UNCHANGED <<cap, mods>>
SendEnd == /\ stack # <<>> /\ ~Top.cb /\ ~Top.hook /\ Top.todo = <<>>
           /\ stack' = SubSeq(stack, 1, Len(stack)-1) /\ UNCHANGED <<cap, mods>>

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MCap, MKinds, MMods, MDepth
MInit == cap = MCap /\ mods = <<>> /\ stack = <<>> /\ op = [e |-> "init"]
MNext ==
    \/ \E m \in MMods :
         \/ Idle /\ \E k \in MKinds : Make(m, k) /\ op' = [e |-> "make", m |-> m, k |-> k]
         \/ Idle /\ Kill(m) /\ op' = [e |-> "kill", m |-> m]
         \/ Idle /\ Len(stack) < MDepth /\ Registered(m) /\ SendBegin(Sends[KindOf(m)], 0, TRUE) /\ op' = [e |-> "send", m |-> m]
         \/ Idle /\ Len(stack) < MDepth /\ Registered(m) /\ RawBegin(Sends[KindOf(m)], 0, FALSE) /\ op' = [e |-> "raw", m |-> m]
         \/ \E t \in 0..4 : Receive(m, t, 0) /\ op' = [e |-> "recv", m |-> m]
    \/ \E t \in 1..2 : Idle /\ Len(stack) < MDepth /\ SendBegin(t, 0, FALSE) /\ op' = [e |-> "msend", t |-> t]
    \/ \E t \in 0..4 : stack # <<>> /\ Top.hook /\ Hook(t, 0) /\ op' = [e |-> "hook"]
    \/ Ret /\ op' = [e |-> "ret"]
    \/ SendEnd /\ op' = [e |-> "end"]
MSpec == MInit /\ [][MNext]_<<mvars, op>>
View == mvars
Emit == PrintT("EDGE " \o ToJson(<<<<mods, stack>>, op', <<mods', stack'>> >>))
WithinCapacity == Len(mods) <= cap
OnlyTakers == \A i \in 1..Len(stack) : \A j \in 1..Len(stack[i].todo) :
                 Registered(stack[i].todo[j]) /\ Sends[KindOf(stack[i].todo[j])] # stack[i].t
                 /\ stack[i].t \in Recvs[KindOf(stack[i].todo[j])]
=============================================================================
