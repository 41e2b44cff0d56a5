------------------------------ MODULE ManyTrace -----------------------------
(* Checks recorded executions with tens of thousands of members.             *)
EXTENDS Many, Json, IOUtils
VARIABLES l
tvars == <<mvars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ kind = "reg" /\ cap = 0 /\ all = <<>>
Same == UNCHANGED mvars
Step == CASE Ev.e = "init" -> kind' = Ev.kind /\ cap' = Ev.cap /\ all' = <<>>
          [] Ev.e = "add" -> AddAll(Ev.a, Ev.b) /\ Ev.ok = Taken(all, Ev.a, Ev.b)
          [] Ev.e = "rem" -> RemAll(Ev.a, Ev.b, Ev.step) /\ Ev.ok = Known(all, Ev.a, Ev.b, Ev.step)
          [] Ev.e = "notify" -> Same /\ Ev.got = all /\ Ev.wrong = 0
          [] Ev.e = "clear" -> Clear /\ Ev.got = all /\ Ev.wrong = 0
          [] Ev.e = "put" -> PutAll(Ev.a, Ev.b)
          [] Ev.e = "get" -> GetAll(Ev.a, Ev.b, Ev.step) /\ Ev.ok = Known(all, Ev.a, Ev.b, Ev.step) /\ Ev.wrong = 0
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
