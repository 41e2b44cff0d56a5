----------------------------- MODULE PacketTrace -----------------------------
EXTENDS Packet, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ kind = "" /\ hs = 0 /\ fs = 0 /\ pad = {} /\ pk = <<>> /\ op = [e |-> "none"]
Keep == UNCHANGED <<kind, hs, fs, pad, op>>
\* everything that can be read from a packet whose bytes are p
Reads(p) == /\ Ev.bytes = p /\ Ev.h = HeaderOf(p) /\ Ev.hc = HeaderOf(p) /\ Ev.f = FieldsOf(p) /\ Ev.fc = FieldsOf(p)
            /\ Ev.c = Tail_(p) /\ Ev.cc = Tail_(p) /\ Ev.valid = Valid(p)
Step ==
    CASE Ev.e = "init" -> /\ kind' = Ev.kind /\ hs' = Ev.hs /\ fs' = Ev.fs /\ pk' = <<>> /\ UNCHANGED op
                         /\ pad' = {Ev.pad[i] : i \in 1..Len(Ev.pad)}
                          /\ LET n == Length(Ev.kind, Ev.hs, Ev.fs) IN Ev.length = n /\ Ev.size = n
      \* built from header and fields
      [] Ev.e = "make" -> IsBuilt(Ev.bytes, Ev.ah, Ev.af) /\ pk' = Ev.bytes /\ Reads(pk') /\ Keep
      \* rebuilt from received bytes, in any of the ways there are
      [] Ev.e = "recv" -> pk' = Ev.b /\ Reads(pk') /\ Keep
      \* a byte changed through an accessor
      [] Ev.e = "poke" -> pk' = [pk EXCEPT ![Ev.i] = Ev.b] /\ Reads(pk') /\ Keep
      \* serialised from header and fields without a packet
      [] Ev.e = "ser" -> IsBuilt(Ev.out, Ev.ah, Ev.af) /\ Ev.intact /\ UNCHANGED pvars
      \* the packet serialised as it is
      [] Ev.e = "write" -> Ev.out = pk /\ Ev.intact /\ UNCHANGED pvars
      \* header, fields and verdict straight from bytes
      [] Ev.e = "tuple" -> LET n == Length(kind, hs, fs) b == SubSeq(Ev.b, 1, n) IN
                           Ev.valid = Valid(b) /\ (Ev.valid => (\A i \in 1..hs : i \in pad \/ Ev.h[i] = b[i]) /\ (\A i \in 1..fs : hs + i \in pad \/ Ev.f[i] = b[hs + i])) /\ UNCHANGED pvars
      [] Ev.e = "done" -> UNCHANGED pvars
      [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<l, pvars>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
