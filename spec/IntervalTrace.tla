---------------------------- MODULE IntervalTrace ---------------------------
(* Recorded executions of interval_event against Interval.  Times in us, or  *)
(* in seconds (intervals in ms, or in seconds).                              *)
(* Due times are known up to an interval lo..hi: the moment of the first     *)
(* check is not observable, and a value changed while a check runs may or    *)
(* may not govern it.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
VARIABLES l, strict,
          scale,   \* units of time in a unit of the intervals
          ph,      \* "new" | "start" (initial delay) | "wait" | "check" | "call" | "after" (call made in this check)
          t0,      \* end of the last wait or call
          lo, hi,  \* due time of the next call (hi = 0: not known yet)
          cur,     \* kind -> possible values of the interval ("p" / "c"), ms
          win,     \* kind -> values it may have had since the last wait / call ended
          grp,     \* kind -> values set by calls overlapping right now
          open,    \* thread -> [k, v] of its running set
          qwin,    \* thread -> values its running query may return
          stops,   \* stops in progress: thread -> [t, call]
          begun, final, inside,   \* some stop began / one from outside returned / one from inside returned
          more,    \* calls, waits begun since
          ctime, cb, dead
tvars == <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, qwin, stops, begun, final, inside, more, ctime, cb, dead>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
K == {"p", "c"}
TInit == /\ l = 1 /\ strict = FALSE /\ scale = 1000 /\ ph = "new" /\ t0 = 0 /\ lo = 0 /\ hi = 0
         /\ cur = [k \in K |-> {0}] /\ win = cur /\ grp = [k \in K |-> {}] /\ open = << >> /\ qwin = << >>
         /\ stops = << >> /\ begun = FALSE /\ final = FALSE /\ inside = FALSE /\ more = <<0, 0>> /\ ctime = 0 /\ cb = 0 /\ dead = FALSE
(* ------------------------------------------------------ the event's thread *)
Slack == (IF scale = 1 THEN Max2(win["p"]) \div 1000000 ELSE Max2(win["p"]) \div 1000) + 1     \* a call may be skipped by one check if it is overdue by 1 ppm of the period or less
WaitBegin ==
    /\ IF ph = "new" THEN ph' = "start" /\ UNCHANGED <<lo, hi>>
       ELSE /\ ph' = "wait"
            /\ IF ph = "check" THEN      \* the check made no call
                 /\ (Prop \in {"I01", "I03"} /\ ~begun /\ hi # 0) => t0 - hi <= Slack
                 /\ hi' = IF hi = 0 THEN Ev.t ELSE hi
               ELSE hi' = hi
            /\ (Prop = "I03" /\ ~begun) => \E v \in win["c"] : Ev.d <= v * scale /\ Ev.d >= v * scale - (Ev.t - t0)    \* if it waits until a moment, delays shorten it
            /\ lo' = lo
    /\ (Prop = "I02" /\ begun /\ strict) => more[2] = 0     \* otherwise the stopper may be delayed before it has any effect
    /\ Prop = "I02" => ~dead
    /\ more' = IF begun THEN <<more[1], more[2] + 1>> ELSE more
    /\ UNCHANGED <<strict, scale, t0, cur, win, grp, open, qwin, stops, begun, final, inside, ctime, cb, dead>>
WaitEnd ==
    /\ ph' = "check" /\ t0' = Ev.t /\ win' = cur
    /\ lo' = IF ph = "start" THEN Ev.t ELSE lo
    /\ UNCHANGED <<strict, scale, hi, cur, grp, open, qwin, stops, begun, final, inside, more, ctime, cb, dead>>
(* woken early, it goes on waiting for the same moment *)
WaitMore == /\ ph = "check" /\ ph' = IF Ev.first THEN "start" ELSE "wait"
            /\ UNCHANGED <<strict, scale, t0, lo, hi, cur, win, grp, open, qwin, stops, begun, final, inside, more, ctime, cb, dead>>
CallBegin ==
    /\ ph' = "call"
    /\ Prop \in {"I01", "I03"} => /\ \/ ph = "check"          \* at most one per check
                                     \/ ph = "after" /\ Ev.t - t0 >= Min2(win["c"]) * scale     \* delayed past the whole wait
                                  /\ Ev.t >= lo               \* not before it is due
    /\ Prop = "I02" => /\ ~final /\ ~inside /\ ~dead /\ ph # "call"
                       /\ (begun /\ strict) => more[1] = 0
    /\ LET h == IF hi = 0 \/ hi > Ev.t THEN Ev.t ELSE hi
       IN lo' = lo + Min2(win["p"]) * scale /\ hi' = h + Max2(win["p"]) * scale
    /\ more' = IF begun THEN <<more[1] + 1, more[2]>> ELSE more
    /\ cb' = Ev.t
    /\ UNCHANGED <<strict, scale, t0, cur, win, grp, open, qwin, stops, begun, final, inside, ctime, dead>>
CallEnd ==
    /\ ph = "call" /\ ph' = "after" /\ win' = cur /\ t0' = Ev.t
    /\ Prop = "I02" => ~final
    /\ ctime' = ctime + (Ev.t - cb)
    /\ UNCHANGED <<strict, scale, lo, hi, cur, grp, open, qwin, stops, begun, final, inside, more, cb, dead>>
(* Ev.n calls of no length, logged together: the k-th of them was made       *)
(* between Ev.min and Ev.max later than k - 1 periods.  None was later than  *)
(* a check allows or than what the first had to make up, and at the end      *)
(* everything was made up.                                                   *)
Many ==
    /\ ph = "check"
    /\ Prop \in {"I01", "I03"} => Ev.min >= lo /\ LET on == hi + (2 * Max2(win["c"])) * scale
                                     IN Ev.max <= Max2({on, Ev.first}) /\ Ev.last <= on
    /\ lo' = lo + Ev.n * Min2(win["p"]) * scale /\ hi' = hi + Ev.n * Max2(win["p"]) * scale
    /\ ph' = "after" /\ t0' = Ev.t
    /\ UNCHANGED <<strict, scale, cur, win, grp, open, qwin, stops, begun, final, inside, more, ctime, cb, dead>>
(* ------------------------------------------------------------------- users *)
Set == /\ cur' = [cur EXCEPT ![Ev.k] = @ \cup {Ev.v}] /\ win' = [win EXCEPT ![Ev.k] = @ \cup {Ev.v}]
       /\ grp' = [grp EXCEPT ![Ev.k] = @ \cup {Ev.v}]
       /\ open' = (Ev.th :> [k |-> Ev.k, v |-> Ev.v]) @@ open
       /\ qwin' = [x \in DOMAIN qwin |-> IF qwin[x].k = Ev.k THEN [qwin[x] EXCEPT !.s = @ \cup {Ev.v}] ELSE qwin[x]]
       /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, stops, begun, final, inside, more, ctime, cb, dead>>
SetEnd == LET k == open[Ev.th].k
              rest == [x \in DOMAIN open \ {Ev.th} |-> open[x]]
              last == ~\E x \in DOMAIN rest : rest[x].k = k
          IN /\ open' = rest
             /\ cur' = IF last THEN [cur EXCEPT ![k] = grp[k]] ELSE cur
             /\ grp' = IF last THEN [grp EXCEPT ![k] = {}] ELSE grp
             /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, win, qwin, stops, begun, final, inside, more, ctime, cb, dead>>
Qry == /\ qwin' = (Ev.th :> [k |-> Ev.k, s |-> cur[Ev.k]]) @@ qwin
       /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, stops, begun, final, inside, more, ctime, cb, dead>>
QryEnd == /\ Prop = "I03" => Ev.v \in qwin[Ev.th].s
          /\ qwin' = [x \in DOMAIN qwin \ {Ev.th} |-> qwin[x]]
          /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, stops, begun, final, inside, more, ctime, cb, dead>>
StopBegin == /\ begun' = TRUE /\ stops' = (Ev.th :> [t |-> Ev.t, c |-> IF ph = "call" THEN ctime + Ev.t - cb ELSE ctime]) @@ stops
             /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, qwin, final, inside, more, ctime, cb, dead>>
(* stop takes at most the calls made meanwhile, one check interval and the initial delay *)
Prompt == (strict /\ Ev.th # "f") => LET s == stops[Ev.th] IN Ev.t - s.t <= (ctime - s.c) + Max2(win["c"] \cup cur["c"]) * scale + 11 * scale + 1
StopEnd == /\ (Prop = "I02") => (Prompt /\ (Ev.th # "f" => ph # "call"))
           /\ stops' = [x \in DOMAIN stops \ {Ev.th} |-> stops[x]]
           /\ final' = (final \/ Ev.th # "f") /\ inside' = (inside \/ Ev.th = "f")
           /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, qwin, begun, more, ctime, cb, dead>>
Destroy == /\ begun' = TRUE /\ stops' = ("d" :> [t |-> Ev.t, c |-> IF ph = "call" THEN ctime + Ev.t - cb ELSE ctime]) @@ stops
           /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, qwin, final, inside, more, ctime, cb, dead>>
Destroyed == /\ (Prop = "I02") => (ph # "call" /\ (strict => Ev.t - stops["d"].t <= (ctime - stops["d"].c) + Max2(win["c"] \cup cur["c"]) * scale + 11 * scale + 1))
             /\ final' = TRUE /\ dead' = TRUE /\ stops' = << >>
             /\ UNCHANGED <<strict, scale, ph, t0, lo, hi, cur, win, grp, open, qwin, begun, inside, more, ctime, cb>>
Step == CASE Ev.e = "init" -> /\ strict' = Ev.strict /\ scale' = Ev.k /\ ph' = "new" /\ t0' = 0 /\ lo' = 0 /\ hi' = 0
                              /\ cur' = [k \in K |-> IF k = "p" THEN {Ev.p} ELSE {Ev.c}] /\ win' = cur'
                              /\ grp' = [k \in K |-> {}] /\ open' = << >> /\ qwin' = << >> /\ stops' = << >>
                              /\ begun' = FALSE /\ final' = FALSE /\ inside' = FALSE /\ more' = <<0, 0>> /\ ctime' = 0 /\ cb' = 0 /\ dead' = FALSE
          [] Ev.e = "wbeg" -> WaitBegin
          [] Ev.e = "wend" -> WaitEnd
          [] Ev.e = "wmore" -> WaitMore
          [] Ev.e = "cbeg" -> CallBegin
          [] Ev.e = "cend" -> CallEnd
          [] Ev.e = "many" -> Many
          [] Ev.e = "set" -> Set
          [] Ev.e = "sete" -> SetEnd
          [] Ev.e = "qry" -> Qry
          [] Ev.e = "qrye" -> QryEnd
          [] Ev.e = "sbeg" -> StopBegin
          [] Ev.e = "send" -> StopEnd
          [] Ev.e = "dbeg" -> Destroy
          [] Ev.e = "dend" -> Destroyed
          [] Ev.e = "done" -> UNCHANGED tvars
          [] Ev.e \in {"race"} -> Prop \notin {"I02", "I03"} /\ UNCHANGED tvars
          [] Ev.e \in {"dead", "stuck", "crash"} -> Prop # "I02" /\ UNCHANGED tvars
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, tvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
