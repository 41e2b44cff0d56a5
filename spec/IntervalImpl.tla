---------------------------- MODULE IntervalImpl ----------------------------
(* How stopping is implemented: a flag the event's thread tests before each  *)
(* check, the thread's id (to recognise stop from inside the function), and  *)
(* a mutex under which one stopper joins the thread.  One action per access. *)
(* Checked: nothing runs once a stop has returned, and every stop returns.   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Stoppers,     \* other threads calling stop; "m" among them also destroys
          MaxCalls, StopsEach,
          OwnCheck      \* TRUE: as the code is; FALSE: stop from inside would join itself (must fail)
VARIABLES flag, tid, lock, joined,
          epc, calls,   \* the event's thread; "in*": inside stop called from the function
          spc, n        \* stopper -> label, number of stops made
vars == <<flag, tid, lock, joined, epc, calls, spc, n>>
Event == "event"
Init == /\ flag = TRUE /\ tid = "none" /\ lock = "free" /\ joined = FALSE
        /\ epc = "setid" /\ calls = 0 /\ spc = [s \in Stoppers |-> "idle"] /\ n = [s \in Stoppers |-> 0]
E(from, to) == epc = from /\ epc' = to
SetId == E("setid", "delay") /\ tid' = Event /\ UNCHANGED <<flag, lock, joined, calls, spc, n>>
Delay == E("delay", "test") /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
Test == /\ epc = "test" /\ epc' = (IF flag THEN "check" ELSE "over") /\ flag' = TRUE     \* test_and_set
        /\ UNCHANGED <<tid, lock, joined, calls, spc, n>>
Due == E("check", "call") /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<flag, tid, lock, joined, spc, n>>
NotDue == E("check", "wait") /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
Ret == E("call", "wait") /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
Wake == E("wait", "test") /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
(* stop from inside the function *)
InStop == E("call", "in1") /\ flag' = FALSE /\ UNCHANGED <<tid, lock, joined, calls, spc, n>>
InId == /\ epc = "in1" /\ epc' = IF OwnCheck /\ tid = Event THEN "instopped" ELSE "in2"
        /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
InLock == E("in2", "in3") /\ lock = "free" /\ lock' = Event /\ UNCHANGED <<flag, tid, joined, calls, spc, n>>
InJoin == FALSE     \* a thread cannot join itself
InRet == E("instopped", "wait") /\ UNCHANGED <<flag, tid, lock, joined, calls, spc, n>>
Ev == SetId \/ Delay \/ Test \/ Due \/ NotDue \/ Ret \/ Wake \/ InId \/ InLock \/ InRet
(* stop from other threads *)
S(s, from, to) == spc[s] = from /\ spc' = [spc EXCEPT ![s] = to]
Begin(s) == /\ n[s] < StopsEach /\ S(s, "idle", "id") /\ n' = [n EXCEPT ![s] = @ + 1] /\ flag' = FALSE
            /\ UNCHANGED <<tid, lock, joined, epc, calls>>
Id(s) == /\ spc[s] = "id" /\ spc' = [spc EXCEPT ![s] = IF tid = s THEN "idle" ELSE "lock"]
         /\ UNCHANGED <<flag, tid, lock, joined, epc, calls, n>>
Lock(s) == S(s, "lock", "join") /\ lock = "free" /\ lock' = s /\ UNCHANGED <<flag, tid, joined, epc, calls, n>>
Join(s) == S(s, "join", "unlock") /\ (joined \/ epc = "over") /\ joined' = TRUE /\ UNCHANGED <<flag, tid, lock, epc, calls, n>>
Unlock(s) == S(s, "unlock", "done") /\ lock' = "free" /\ UNCHANGED <<flag, tid, joined, epc, calls, n>>
Again(s) == S(s, "done", "idle") /\ n[s] < StopsEach /\ UNCHANGED <<flag, tid, lock, joined, epc, calls, n>>
Stopper(s) == Id(s) \/ Lock(s) \/ Join(s) \/ Unlock(s)
(* destruction: the last stop of "m", once nobody else is in stop *)
Next == Ev \/ InStop \/ \E s \in Stoppers : Begin(s) \/ Stopper(s) \/ Again(s)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Ev) /\ \A s \in Stoppers : WF_vars(Stopper(s))
(* ------------------------------------------------------------- properties *)
InCall == epc \in {"call", "in1", "in2", "in3", "instopped"}
Returned == \E s \in Stoppers : n[s] > 0 /\ spc[s] = "done"
(* once any stop has returned the thread is over: no call runs or begins, nothing is touched *)
Final == Returned => epc = "over"
FinalStep == [][Returned => calls' = calls]_vars
(* after stop from inside has returned, no further call *)
InsideFinal == [][epc = "instopped" => calls' = calls]_vars

Stops == \A s \in Stoppers : spc[s] = "id" ~> spc[s] = "done"
InsideReturns == epc = "in1" ~> epc = "instopped"
(* a cleared flag is seen: test_and_set must not hide it from the only reader *)
Ends == (\E s \in Stoppers : n[s] > 0) ~> epc = "over"
=============================================================================
