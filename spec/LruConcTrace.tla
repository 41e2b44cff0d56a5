---------------------------- MODULE LruConcTrace ----------------------------
EXTENDS LruConc, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == /\ TLCSet(1, 0) /\ l = 1 /\ cap = 0 /\ exc = TRUE /\ exp = 0 /\ now = 0 /\ order = <<>> /\ item = << >> /\ pend = << >>
         /\ owner = 0 /\ list = 0 /\ map = 0 /\ pc = 0 /\ made = 0 /\ found = 0
Step == CASE Ev.e = "init" -> cap' = Ev.cap /\ exc' = Ev.exc /\ exp' = Ev.exp /\ now' = 0 /\ order' = <<>> /\ item' = << >> /\ pend' = << >>
          [] Ev.e = "call" -> Call(Ev.t, Ev.f, Ev.a, Ev.v)
          [] Ev.e = "ret" -> Ret(Ev.t, Ev.r, Ev.v)
          [] Ev.e = "time" -> now' = Ev.now /\ UNCHANGED <<cap, exc, exp, order, item, pend>>
          [] Ev.e = "done" -> UNCHANGED cvars
          [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ UNCHANGED lvars
         /\ \/ Step /\ l' = l + 1 /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
            \* an effect can matter right before a return or before time moves on
            \/ /\ IF Ev.e = "ret" THEN Ev.t \in DOMAIN pend /\ ~pend[Ev.t].lin ELSE Ev.e = "time"
               /\ \E t \in DOMAIN pend : Lin(t)
               /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_<<cvars, lvars, l>>
Accepted == LET d == TLCGet(1) IN d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
