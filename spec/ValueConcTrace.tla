--------------------------- MODULE ValueConcTrace ---------------------------
EXTENDS ValueConc, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == /\ TLCSet(1, 0) /\ l = 1 /\ val = 0 /\ subs = {} /\ modulus = 0 /\ pend = << >> /\ got = << >>
         /\ pc = 0 /\ tmp = 0 /\ todo = 0 /\ made = 0 /\ shared = 0 /\ total = 0
Step == CASE Ev.e = "init" -> val' = 0 /\ subs' = 1..Ev.n /\ modulus' = Ev.mod /\ pend' = << >> /\ got' = << >>
          [] Ev.e = "call" -> Call(Ev.t, Ev.f, Ev.a)
          [] Ev.e = "del" -> Deliver(Ev.t, Ev.o, Ev.a)
          [] Ev.e = "ret" -> Ret(Ev.t, Ev.r)
          [] Ev.e = "done" -> pend = << >> /\ UNCHANGED cvars
          [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ UNCHANGED lvars
         /\ \/ Step /\ l' = l + 1 /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
            \/ /\ Ev.e = "ret" /\ Ev.t \in DOMAIN pend /\ ~pend[Ev.t].lin
               /\ \E t \in DOMAIN pend : Lin(t)
               /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_<<cvars, lvars, l>>
Accepted == LET d == TLCGet(1) IN d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
