---------------------------- MODULE IntervalInd ----------------------------
(* The calls of Interval for any time, period and check interval (no changes *)
(* of them, no bounds).  Apalache shows IndInv to be inductive; time passes   *)
(* in steps of any length up to the end of the current phase.                *)
EXTENDS Integers
CONSTANT
    \* @type: Int;
    Restart     \* 1: the next call is due a period after the last one began (drifts; must fail)
VARIABLES
    \* @type: Int;
    clock,
    \* @type: Int;
    start,
    \* @type: Str;
    phase,
    \* @type: Int;
    left,
    \* @type: Int;
    due,
    \* @type: Int;
    calls,
    \* @type: Int;
    period,
    \* @type: Int;
    check,
    \* @type: Int;
    dur,        \* longest run of the function
    \* @type: Int;
    behind,     \* how late the last check found the due time, 0 if it was not due
    \* @type: Int;
    last,       \* when the last call began
    \* @type: Bool;
    stopping
CInit == Restart = 0
CBroken == Restart = 1
Fix == UNCHANGED <<period, check, dur>>
Init == /\ clock = 0 /\ start = 0 /\ phase = "start" /\ left \in Int /\ left >= 0 /\ due = 0 /\ calls = 0
        /\ period \in Int /\ period > 0 /\ check \in Int /\ check > 0 /\ dur \in Int /\ dur >= 0
        /\ behind = 0 /\ last = 0 /\ stopping = FALSE
Tick == /\ left > 0
        /\ \E d \in Int : d > 0 /\ d <= left /\ left' = left - d /\ clock' = clock + d
        /\ Fix /\ UNCHANGED <<start, phase, due, calls, behind, last, stopping>>
CheckWith(d) ==
    /\ left = 0 /\ Fix /\ UNCHANGED <<clock, stopping>>
    /\ IF stopping THEN phase' = "over" /\ left' = 0 /\ due' = d /\ UNCHANGED <<calls, behind, last>>
       ELSE IF clock >= d
       THEN /\ phase' = "call" /\ calls' = calls + 1 /\ behind' = clock - d /\ last' = clock
            /\ due' = (IF Restart = 1 THEN clock ELSE d) + period
            /\ \E t \in Int : t >= 0 /\ t <= dur /\ left' = t
       ELSE phase' = "wait" /\ left' = check /\ due' = d /\ behind' = 0 /\ UNCHANGED <<calls, last>>
FirstCheck == phase = "start" /\ start' = clock /\ CheckWith(clock)
Check == phase = "wait" /\ start' = start /\ CheckWith(due)
CallEnd == /\ phase = "call" /\ left = 0 /\ phase' = "wait" /\ left' = check
           /\ Fix /\ UNCHANGED <<clock, start, due, calls, behind, last, stopping>>
Stop == stopping' = TRUE /\ Fix /\ UNCHANGED <<clock, start, phase, left, due, calls, behind, last>>
Next == Tick \/ FirstCheck \/ Check \/ CallEnd \/ Stop
(* ------------------------------------------------------------- properties *)
Since == clock - start
Running == phase \in {"call", "wait"}
(* I01: as many periods are accounted for as there were calls, no call before its time, and none is lost: *)
(* an event that is quick enough is never a whole period behind *)
Accumulates == Running => due = start + calls * period
NeverAhead == Running /\ calls > 0 => (calls - 1) * period <= last - start
Keeps == Running /\ dur + check <= period => behind < check
(* no check passes over an overdue call: the last call that was due at the last check has been made or is running *)
LongRun == Running /\ ~stopping /\ dur + check <= period => Since < (calls + 1) * period
All == Accumulates /\ NeverAhead /\ Keeps /\ LongRun
(* -------------------------------------------------------------- invariant *)
IndInv ==
    /\ period > 0 /\ check > 0 /\ dur >= 0 /\ left >= 0 /\ calls >= 0 /\ behind >= 0
    /\ phase \in {"start", "call", "wait", "over"}
    /\ phase = "over" => stopping
    /\ phase = "start" => calls = 0 /\ behind = 0
    /\ start <= clock /\ last <= clock
    /\ phase = "wait" => left <= check
    /\ phase = "call" => left <= dur /\ calls > 0
    /\ Running => due = start + calls * period
    /\ Running /\ calls > 0 => due - period <= last /\ start <= last
    /\ Running /\ dur + check <= period =>
          /\ behind < check
          \* where the clock is, as seen from the due time, however the time of the phase is spent
          /\ phase = "call" => clock + left <= due - period + behind + dur
          /\ phase = "wait" => clock + left < due + check
IndInit ==
    /\ clock \in Int /\ start \in Int /\ phase \in {"start", "call", "wait", "over"} /\ left \in Int /\ due \in Int
    /\ calls \in Int /\ period \in Int /\ check \in Int /\ dur \in Int /\ behind \in Int /\ last \in Int /\ stopping \in BOOLEAN
    /\ IndInv
=============================================================================
