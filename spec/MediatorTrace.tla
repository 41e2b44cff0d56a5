---------------------------- MODULE MediatorTrace ---------------------------
(* Prop M01: routing, content, hook.  M02: membership and capacity (who is   *)
(* reached, not in which order or with what content).                        *)
EXTENDS Mediator, IOUtils
CONSTANT Prop
VARIABLES l,
          ids      \* type -> the identity the hook saw for it (0: none yet)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
\* the module kinds of harness/mediator.cpp
HSends == 0 :> 1 @@ 1 :> 2 @@ 2 :> 3 @@ 3 :> 1 @@ 4 :> 4 @@ 5 :> 2 @@ 6 :> 4 @@ 7 :> 3 @@ 8 :> 5 @@ 9 :> 1 @@ 10 :> 4
HRecvs == 0 :> {2} @@ 1 :> {1, 3} @@ 2 :> {1, 2} @@ 3 :> {1} @@ 4 :> {} @@ 5 :> {2, 4, 1} @@ 6 :> {1, 2, 3, 4} @@ 7 :> {4} @@ 8 :> {1, 5} @@ 9 :> {2, 5} @@ 10 :> {}
Size == <<4, 8, 8, 13, 70001>>
TInit == l = 1 /\ cap = 0 /\ mods = <<>> /\ stack = <<>> /\ op = [e |-> "none"] /\ ids = [t \in 1..5 |-> 0]
DoMake == IF Prop = "M02"
          THEN Ev.res = (IF Len(mods) < cap THEN "ok" ELSE "refused") /\ Make(Ev.m, Ev.k)
          ELSE IF Ev.res = "ok" THEN cap' = cap /\ Register(Ev.m, Ev.k) ELSE UNCHANGED mvars
DoHook == IF Prop = "M01"
          THEN /\ stack # <<>> /\ Hook(Top.t, Ev.b)
               /\ Ev.conv = [t \in 1..5 |-> IF Ev.n = Size[t] THEN 1 ELSE 0]
               /\ ids[Top.t] \in {0, Ev.id} /\ \A t \in 1..5 \ {Top.t} : ids[t] # Ev.id
               /\ ids' = [ids EXCEPT ![Top.t] = Ev.id]
          ELSE stack # <<>> /\ SetTop([Top EXCEPT !.hook = FALSE, !.cb = TRUE]) /\ UNCHANGED <<cap, mods, ids>>
DoChurn == /\ ~Registered(Ev.m) /\ UNCHANGED mvars
           /\ Prop = "M02" => Ev.ok = IF Len(mods) < cap THEN Ev.n ELSE 0
DoReceive == IF Prop = "M01" THEN Receive(Ev.m, Ev.t, Ev.b)
             ELSE /\ stack # <<>> /\ Contains(Top.todo \o Top.extra, Ev.m)
                  /\ SetTop([Top EXCEPT !.todo = Without(@, Ev.m), !.extra = Without(@, Ev.m), !.cb = TRUE])
                  /\ UNCHANGED <<cap, mods>>
DoEnd == SendEnd
Step == CASE Ev.e = "init" -> cap' = Ev.cap /\ mods' = <<>> /\ stack' = <<>> /\ ids' = [t \in 1..5 |-> 0]
          [] Ev.e = "make" -> DoMake /\ ids' = ids
          [] Ev.e = "churn" -> DoChurn /\ ids' = ids
          [] Ev.e = "kill" -> Kill(Ev.m) /\ ids' = ids
          [] Ev.e = "send" -> Registered(Ev.m) /\ Sends[KindOf(Ev.m)] = Ev.t /\ SendBegin(Ev.t, Ev.b, TRUE) /\ ids' = ids
          [] Ev.e = "raw" -> /\ Registered(Ev.m) /\ Sends[KindOf(Ev.m)] = Ev.t /\ Ev.size = Size[Ev.t]
                             /\ RawBegin(Ev.t, Ev.b, Ev.n = Ev.size) /\ ids' = ids
          [] Ev.e = "msend" -> SendBegin(Ev.t, Ev.b, FALSE) /\ ids' = ids
          [] Ev.e = "hook" -> DoHook
          [] Ev.e = "recv" -> DoReceive /\ ids' = ids
          [] Ev.e = "ret" -> Ret /\ ids' = ids
          [] Ev.e = "end" -> DoEnd /\ ids' = ids
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_<<mvars, op, l, ids>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
