----------------------------- MODULE HolderTrace -----------------------------
EXTENDS Holder, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ kind = "" /\ obj = <<>> /\ log = <<>> /\ op = [e |-> "none"]
Seen(r) == Ev.log = r.log /\ obj' = r.o /\ log' = r.log /\ UNCHANGED <<kind, op>>
\* the objects of all holders as they read through every accessor, each inside its own holder
Rest == /\ Ev.vals = obj' /\ Ev.live = Cardinality(Live(obj')) /\ Ev.inplace /\ Ev.intact
        /\ Ev.raised = (Len(Ev.log) > 0 /\ \E k \in 1..Len(Ev.log) : Ev.log[k][1] = "throw")
Step ==
    CASE Ev.e = "init" -> kind' = Ev.kind /\ obj' = [i \in 1..Ev.n |-> None] /\ log' = <<>> /\ UNCHANGED op /\ Ev.traits
      [] Ev.e = "make" -> Seen(MadeBy(Ev.i, Ev.v)) /\ Ev.how = Ev.given /\ Rest
      [] Ev.e = "copy" -> Seen(Copied(Ev.i, Ev.j)) /\ Rest
      [] Ev.e = "move" -> Seen(Moved(Ev.i, Ev.j)) /\ Rest
      [] Ev.e = "cassign" -> Seen(AssignedC(Ev.i, Ev.j)) /\ Ev.self /\ Rest
      [] Ev.e = "massign" -> Seen(AssignedM(Ev.i, Ev.j)) /\ Ev.self /\ Rest
      [] Ev.e = "swap" -> Seen(Swapped(Ev.i, Ev.j)) /\ Rest
      [] Ev.e = "set" -> Seen([o |-> [obj EXCEPT ![Ev.i] = Ev.v], log |-> <<>>]) /\ Rest
      [] Ev.e = "drop" -> Seen(Destroyed(Ev.i)) /\ Rest
      \* a container of holders: after any history as many objects as elements, with the values put in
      [] Ev.e = "vector" -> Ev.vals = Ev.want /\ Ev.live = Ev.want_live /\ Ev.born = Ev.died + Len(Ev.want) /\ Ev.inplace /\ UNCHANGED hvars
      [] Ev.e = "done" -> Ev.live = 0 /\ UNCHANGED hvars
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, hvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
