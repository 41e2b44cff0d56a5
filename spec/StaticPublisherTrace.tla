------------------------ MODULE StaticPublisherTrace ------------------------
EXTENDS StaticPublisher, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ bound = << >> /\ source = << >> /\ stack = <<>> /\ op = [e |-> "none"]
Step == CASE Ev.e = "init" -> bound' = << >> /\ source' = << >> /\ stack' = <<>>
          [] Ev.e = "new" -> New(Ev.p, Ev.obs)
          [] Ev.e = "del" -> Del(Ev.p)
          [] Ev.e = "nbeg" -> NotifyBegin(Ev.p, Ev.d)
          [] Ev.e = "got" -> Got(Ev.o, Ev.s, Ev.d)
          [] Ev.e = "ret" -> Ret
          [] Ev.e = "nend" -> NotifyEnd(Ev.p)
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
