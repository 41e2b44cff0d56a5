----------------------------- MODULE BytesTrace -----------------------------
EXTENDS Bytes, IOUtils
CONSTANT Prop
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ kind = "" /\ num = <<>> /\ mem = <<>> /\ left = 0 /\ right = 0 /\ op = [e |-> "none"]
All(s, x) == \A i \in 1..Len(s) : s[i] = x
Step ==
    CASE Ev.e = "init" -> UNCHANGED bvars
      \* a wrapper of the session: its memory, what it reads back, what surrounds it
      [] Ev.e = "new" -> /\ kind' = Ev.kind /\ num' = Ev.v
                         /\ mem' = Mem(Ev.kind, Ev.v) /\ Ev.mem = mem' /\ Ev.get = Ev.v
                         /\ Ev.size = Len(Ev.v) /\ Ev.align = 1
                         /\ UNCHANGED <<left, right, op>>
      [] Ev.e = "assign" -> num' = Ev.v /\ mem' = Mem(kind, Ev.v) /\ Ev.mem = mem' /\ Ev.get = Ev.v /\ Ev.chained = Ev.v /\ UNCHANGED <<kind, left, right, op>>
      [] Ev.e = "overlay" -> mem' = Ev.mem /\ num' = Num(kind, Ev.mem) /\ Ev.get = num' /\ UNCHANGED <<kind, left, right, op>>
      [] Ev.e = "around" -> Ev.intact /\ UNCHANGED bvars
      [] Ev.e = "cmp" -> /\ LET lt == Less(num, Ev.b) gt == Less(Ev.b, num) IN
                            /\ Ev.eq = (num = Ev.b) /\ Ev.ne = (num # Ev.b) /\ Ev.lt = lt /\ Ev.gt = gt /\ Ev.le = ~gt /\ Ev.ge = ~lt
                         /\ UNCHANGED bvars
      [] Ev.e = "struct" -> /\ Ev.size = Ev.packed /\ UNCHANGED bvars
      [] Ev.e = "swap" -> Ev.r = Swapped(Ev.v) /\ UNCHANGED bvars
      [] Ev.e = "ser" -> Ev.out = Ev.obj /\ Ev.intact /\ UNCHANGED bvars
      [] Ev.e = "de" -> Ev.obj = Ev.in /\ Ev.equal /\ UNCHANGED bvars
      [] Ev.e = "done" -> UNCHANGED bvars
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, bvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
