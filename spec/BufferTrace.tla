----------------------------- MODULE BufferTrace ----------------------------
(* Recorded uses of data<T> on one buffer against Buffer.                    *)
EXTENDS Buffer, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ mem = <<>> /\ op = [e |-> "none"]
Step ==
    CASE Ev.e = "init" -> mem' = Ev.mem
      [] Ev.e = "write" -> Write(Ev.at, Ev.obj) /\ Ev.mem = mem'
      [] Ev.e = "read" -> Read(Ev.at, Len(Ev.obj)) /\ Ev.obj = Get(mem, Ev.at, Len(Ev.obj))
      [] Ev.e = "turn" -> Turn(Ev.at, Ev.w) /\ Ev.mem = mem'
      [] Ev.e = "move" -> Move(Ev.at, Ev.to, Ev.w) /\ Ev.mem = mem'
      [] Ev.e = "done" -> UNCHANGED mem
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_<<l, mem, op>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
