------------------------------ MODULE Interval ------------------------------
(* A periodic event: a thread that checks at intervals whether a call is due.*)
(* Time is discrete.  The state is that of the event's own activity (phase,  *)
(* time left in it), the due time of the next call, the two configured       *)
(* intervals, and how far stopping has got.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MPeriods, MChecks, MDur,  \* values the intervals and call durations take
          MDelay,                   \* time from construction to the first check
          MTime, MOver,             \* bounds: absolute time, lateness
          MChange                   \* whether intervals are changed
VARIABLES clock, start, phase, left, due, calls, period, check, stopping, main, done, op
vars == <<clock, start, phase, left, due, calls, period, check, stopping, main, done, op>>
Init == /\ clock = 0 /\ start = 0 /\ phase = "start" /\ left = MDelay /\ due = 0 /\ calls = 0
        /\ period \in MPeriods /\ check \in MChecks /\ stopping = FALSE /\ main = "use" /\ done = 0
        /\ op = [e |-> "init"]
Tick == /\ left > 0 /\ (stopping \/ clock < MTime) /\ (phase = "start" \/ stopping \/ clock - due < MOver)
        /\ left' = left - 1 /\ clock' = clock + 1 /\ op' = [e |-> "tick"]
        /\ UNCHANGED <<start, phase, due, calls, period, check, stopping, main, done>>
(* ------------------------------------------------------- the event's thread *)
(* what one check does: nothing any more, one call if one is due, or nothing *)
CheckWith(d) == \/ /\ stopping /\ phase' = "over" /\ left' = 0 /\ op' = [e |-> "over"]
                   /\ due' = d /\ calls' = calls
                \/ /\ ~stopping /\ clock >= d
                   /\ phase' = "call" /\ due' = d + period /\ calls' = calls + 1
                   /\ \E t \in MDur : left' = t /\ op' = [e |-> "call", d |-> t]
                \/ /\ ~stopping /\ clock < d
                   /\ phase' = "wait" /\ left' = check /\ op' = [e |-> "nothing"] /\ due' = d /\ calls' = calls
FirstCheck == /\ phase = "start" /\ left = 0 /\ start' = clock /\ CheckWith(clock)
              /\ UNCHANGED <<clock, period, check, stopping, main, done>>
Check == /\ phase = "wait" /\ left = 0 /\ CheckWith(due)
         /\ UNCHANGED <<clock, start, period, check, stopping, main, done>>
CallEnd == /\ phase = "call" /\ left = 0 /\ phase' = "wait" /\ left' = check /\ op' = [e |-> "callend"]
           /\ UNCHANGED <<clock, start, due, calls, period, check, stopping, main, done>>
(* -------------------------------------------------------------- its users *)
User == main = "use" \/ phase = "call"     \* somebody is there to act; in: from inside the function
SetPeriod(p, in) == /\ MChange /\ p # period /\ (IF in THEN phase = "call" ELSE main = "use" /\ left > 0)
                    /\ period' = p /\ op' = [e |-> "setp", v |-> p, in |-> in]
                    /\ UNCHANGED <<clock, start, phase, left, due, calls, check, stopping, main, done>>
SetCheck(c, in) == /\ MChange /\ c # check /\ (IF in THEN phase = "call" ELSE main = "use" /\ left > 0)
                   /\ check' = c /\ op' = [e |-> "setc", v |-> c, in |-> in]
                   /\ UNCHANGED <<clock, start, phase, left, due, calls, period, stopping, main, done>>
StopIn == /\ phase = "call" /\ stopping' = TRUE /\ op' = [e |-> "stop", in |-> TRUE]
          /\ UNCHANGED <<clock, start, phase, left, due, calls, period, check, main, done>>
StopOut == /\ main = "use" /\ (left > 0 \/ phase = "over") /\ main' = "stopping" /\ stopping' = TRUE
           /\ op' = [e |-> "stop", in |-> FALSE]
           /\ UNCHANGED <<clock, start, phase, left, due, calls, period, check, done>>
StopRet == /\ main = "stopping" /\ phase = "over" /\ main' = "use" /\ done' = 1 /\ op' = [e |-> "ret"]
           /\ UNCHANGED <<clock, start, phase, left, due, calls, period, check, stopping>>
Destroy == /\ main = "use" /\ (left > 0 \/ phase = "over") /\ main' = "destroying" /\ stopping' = TRUE
           /\ op' = [e |-> "destroy"]
           /\ UNCHANGED <<clock, start, phase, left, due, calls, period, check, done>>
Gone == /\ main = "destroying" /\ phase = "over" /\ main' = "gone" /\ op' = [e |-> "gone"]
        /\ UNCHANGED <<clock, start, phase, left, due, calls, period, check, stopping, done>>
Next == \/ Tick \/ FirstCheck \/ Check \/ CallEnd \/ StopIn \/ StopOut \/ StopRet \/ Destroy \/ Gone
        \/ \E p \in MPeriods, in \in BOOLEAN : SetPeriod(p, in)
        \/ \E c \in MChecks, in \in BOOLEAN : SetCheck(c, in)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Tick) /\ WF_vars(FirstCheck) /\ WF_vars(Check) /\ WF_vars(CallEnd) /\ WF_vars(StopRet) /\ WF_vars(Gone)
(* ------------------------------------------------------------- properties *)
(* I01: calls are counted against the time since the first check *)
Since == clock - start
Accumulates == ~MChange /\ phase # "start" => due = start + calls * period
NeverAhead == ~MChange /\ phase # "start" => calls <= (Since \div period) + 1
OnePerCheck == [][calls' # calls => calls' = calls + 1 /\ phase \in {"start", "wait"} /\ left = 0 /\ clock >= (IF phase = "start" THEN clock ELSE due)]_vars
MadeUp == [][op'.e = "nothing" => clock < due']_vars      \* no check passes over an overdue call
LongRun == ~MChange /\ phase = "wait" /\ ~stopping /\ (\A d \in MDur : d + check <= period)
           => calls >= ((Since - (check - left)) \div period)
(* I02 *)
StoppedForGood == [][done = 1 \/ main = "gone" => calls' = calls /\ phase = "over" /\ phase' = "over"]_vars
AtMostOneMore == [][stopping => calls' = calls]_vars
StopReturns == main = "stopping" ~> main # "stopping"
DestroyReturns == main = "destroying" ~> main = "gone"
(* I03 *)
InForce == [][/\ (op'.e \in {"nothing", "callend"} => left' = check)
              /\ (op'.e = "call" => due' = (IF phase = "start" THEN clock ELSE due) + period)]_vars
Unaltered == [][op'.e \in {"setp", "setc"} => <<due, calls, left, phase>>' = <<due, calls, left, phase>>]_vars
(* ---------------------------------------------------------- scenario generator *)
Gen == <<phase, left, IF phase \in {"start", "over"} THEN 0 ELSE clock - due, period, check, stopping, main, done>>
Emit == PrintT("EDGE " \o ToJson(<<<<phase, left, IF phase \in {"start", "over"} THEN 0 ELSE clock - due, period, check, stopping, main, done>>,
            op', <<phase', left', IF phase' \in {"start", "over"} THEN 0 ELSE clock' - due', period', check', stopping', main', done'>>>>))
=============================================================================
