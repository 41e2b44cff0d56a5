------------------------------- MODULE Packet -------------------------------
(* K01: a fixed-layout packet is header, fields and checksum, nothing else.  *)
(* The state of a packet is its bytes.                                       *)
EXTENDS Checksum, TLC, Json
CONSTANTS MKind, MH, MF, MBase
VARIABLES kind, hs, fs, pad, pk, op
pvars == <<kind, hs, fs, pad, pk, op>>
Length(k, h, f) == h + f + Size(k)
Body(p) == SubSeq(p, 1, Len(p) - Size(kind))
Tail_(p) == SubSeq(p, Len(p) - Size(kind) + 1, Len(p))
HeaderOf(p) == SubSeq(p, 1, hs)
FieldsOf(p) == SubSeq(p, hs + 1, hs + fs)
Valid(p) == Tail_(p) = Crc(kind, Body(p))
Built(h, f) == h \o f \o Crc(kind, h \o f)
\* positions in pad are padding inside the user's own types: their content is not specified,
\* but the checksum is the one of the bytes that are there
IsBuilt(p, h, f) == /\ Len(p) = Length(kind, hs, fs) /\ Valid(p)
                    /\ \A i \in 1..(hs + fs) : i \in pad \/ p[i] = (h \o f)[i]
(* ---------------------------------------------------------- bounded model *)
Digits == 0..(MBase - 1)
Str(n) == [1..n -> Digits]
Init == /\ kind = MKind /\ hs = MH /\ fs = MF /\ pad = {} /\ op = [e |-> "init"]
        /\ pk = [i \in 1..Length(MKind, MH, MF) |-> 0]
Build == \E h \in Str(hs), f \in Str(fs) : pk' = Built(h, f) /\ op' = [e |-> "make", h |-> h, f |-> f]
Receive == \E b \in Str(Len(pk)) : pk' = b /\ op' = [e |-> "recv", b |-> b]
Poke == \E i \in 1..Len(pk), v \in Digits : pk' = [pk EXCEPT ![i] = v] /\ op' = [e |-> "poke", i |-> i, b |-> v]
Next == (Build \/ Receive \/ Poke) /\ UNCHANGED <<kind, hs, fs, pad>>
Spec == Init /\ [][Next]_pvars
View == pk
Emit == PrintT("EDGE " \o ToJson(<<pk, op', pk'>>))
BuiltIsValid == \A h \in Str(hs), f \in Str(fs) :
                   LET p == Built(h, f) IN Valid(p) /\ IsBuilt(p, h, f) /\ HeaderOf(p) = h /\ FieldsOf(p) = f /\ Len(p) = Length(kind, hs, fs)
\* what is valid is exactly what can be built
ValidIsBuilt == Valid(pk) <=> pk = Built(HeaderOf(pk), FieldsOf(pk))
\* a single changed digit never goes unnoticed
Noticed == [][op'.e = "poke" /\ Valid(pk) /\ pk' # pk => ~Valid(pk')]_pvars
=============================================================================
