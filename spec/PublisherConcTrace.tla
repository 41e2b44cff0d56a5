------------------------- MODULE PublisherConcTrace -------------------------
EXTENDS PublisherConc, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == /\ TLCSet(1, 0) /\ l = 1 /\ reg = <<>> /\ pend = << >> /\ got = << >>
         /\ owner = 0 /\ vec = <<>> /\ pc = 0 /\ it = 0 /\ made = 0
Step == CASE Ev.e = "init" -> reg' = <<>> /\ pend' = << >> /\ got' = << >>
          [] Ev.e = "call" -> Call(Ev.t, Ev.f, Ev.a)
          [] Ev.e = "del" -> Ev.src = 1 /\ Deliver(Ev.t, Ev.o, Ev.a)
          [] Ev.e = "ret" -> Ret(Ev.t, Ev.r)
          [] Ev.e = "done" -> UNCHANGED cvars
          [] OTHER -> FALSE
TNext == /\ l <= Len(Trace) /\ UNCHANGED lvars
         /\ \/ Step /\ l' = l + 1 /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
            \* effects need not be placed anywhere but right before a return
            \/ /\ Ev.e = "ret" /\ Ev.t \in DOMAIN pend /\ ~pend[Ev.t].lin
               /\ \E t \in DOMAIN pend : Lin(t)
               /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_<<cvars, lvars, l>>
Accepted == LET d == TLCGet(1) IN d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
