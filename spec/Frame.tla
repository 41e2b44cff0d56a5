-------------------------------- MODULE Frame --------------------------------
(* K02: a buffer of fixed capacity holding one frame of variable length:     *)
(* header, fields, a whole number of payload elements, checksum.  The state  *)
(* is the storage and the claimed size.                                      *)
EXTENDS Checksum, FiniteSets, TLC, Json
CONSTANTS MKind, MH, MF, MT, MCap, MBase
VARIABLES kind, hs, fs, ts, pad, cap, store, size, op
fvars == <<kind, hs, fs, ts, pad, cap, store, size, op>>
conf == <<kind, hs, fs, ts, pad, cap>>
Fixed == hs + fs + Size(kind)
Fits(n) == n <= (cap - Fixed) \div ts
Bytes(h, f, d) == h \o f \o d \o Crc(kind, h \o f \o d)
SizeOk(z) == z >= Fixed /\ z <= cap /\ (z - Fixed) % ts = 0
FrameOf(st, z) == SubSeq(st, 1, IF z > cap THEN cap ELSE z)
Valid(st, z) == SizeOk(z) /\ SubSeq(st, z - Size(kind) + 1, z) = Crc(kind, SubSeq(st, 1, z - Size(kind)))
HeaderIn(st) == SubSeq(st, 1, hs)
FieldsIn(st) == SubSeq(st, hs + 1, hs + fs)
Count(z) == (z - Fixed) \div ts
PayloadIn(st, z) == SubSeq(st, hs + fs + 1, z - Size(kind))
\* what serialising may leave behind: the frame in front, the rest of the storage is not part of it
\* (pad: positions of padding inside the header and field types, whose content is not specified)
Serialised(h, f, d, st2, z2) == LET b == Bytes(h, f, d) IN
    /\ z2 = Len(b) /\ Len(st2) = cap /\ Valid(st2, z2)
    /\ \A i \in 1..(z2 - Size(kind)) : i \in pad \/ st2[i] = b[i]
Refused(st, z, st2, z2) == z2 = z /\ Len(st2) = cap /\ FrameOf(st2, z) = FrameOf(st, z)
(* ---------------------------------------------------------- bounded model *)
Digits == 0..(MBase - 1)
Str(n) == [1..n -> Digits]
Counts == 0..((MCap \div MT) + 1)
Sizes == 0..(MCap + 2)
Over(st, b) == [i \in 1..cap |-> IF i <= Len(b) THEN b[i] ELSE st[i]]
Init == /\ kind = MKind /\ hs = MH /\ fs = MF /\ ts = MT /\ pad = {} /\ cap = MCap /\ op = [e |-> "init"]
        /\ store = [i \in 1..MCap |-> 0] /\ size = 0
Ser == \E n \in Counts : \E h \in Str(hs), f \in Str(fs), d \in Str(n * ts) :
          IF Fits(n) THEN /\ store' = Over(store, Bytes(h, f, d)) /\ size' = Len(Bytes(h, f, d))
                          /\ op' = [e |-> "ser", h |-> h, f |-> f, d |-> d, n |-> n, ok |-> TRUE, own |-> TRUE]
          ELSE /\ d = [i \in 1..(n * ts) |-> 1]   \* the payload of a refused frame does not matter
               /\ UNCHANGED <<store, size>> /\ op' = [e |-> "ser", h |-> h, f |-> f, d |-> d, n |-> n, ok |-> FALSE, own |-> TRUE]
\* without a payload of its own, the frame is built around the bytes that are there already
InPlace(n) == SubSeq(store, hs + fs + 1, hs + fs + n * ts)
SerInPlace == \E n \in Counts \ {0} : \E h \in Str(hs), f \in Str(fs) :
          IF Fits(n) THEN LET d == InPlace(n) IN
                          /\ store' = Over(store, Bytes(h, f, d)) /\ size' = Len(Bytes(h, f, d))
                          /\ op' = [e |-> "ser", h |-> h, f |-> f, d |-> d, n |-> n, ok |-> TRUE, own |-> FALSE]
          ELSE /\ UNCHANGED <<store, size>> /\ op' = [e |-> "ser", h |-> h, f |-> f, d |-> [i \in 1..(n * ts) |-> 1], n |-> n, ok |-> FALSE, own |-> FALSE]
Claim == \E z \in Sizes : z # size /\ size' = z /\ op' = [e |-> "size", v |-> z] /\ UNCHANGED store
Poke == \E i \in 1..cap, v \in Digits : store[i] # v /\ store' = [store EXCEPT ![i] = v] /\ op' = [e |-> "poke", i |-> i, b |-> v] /\ UNCHANGED size
Next == (Ser \/ SerInPlace \/ Claim \/ Poke) /\ UNCHANGED conf
Spec == Init /\ [][Next]_fvars
View == <<store, size>>
Emit == PrintT("EDGE " \o ToJson(<<View, op', View'>>))
RoundTrip == [][op'.e = "ser" =>
                 /\ op'.ok <=> Fixed + Len(op'.d) <= cap
                 /\ IF op'.ok THEN /\ Valid(store', size') /\ HeaderIn(store') = op'.h /\ FieldsIn(store') = op'.f
                                   /\ PayloadIn(store', size') = op'.d /\ Count(size') = op'.n
                                   /\ Serialised(op'.h, op'.f, op'.d, store', size')
                    ELSE Refused(store, size, store', size')]_fvars
\* what is accepted is exactly what serialising could have produced
ValidIsSerialised == Valid(store, size) <=>
    /\ SizeOk(size)
    /\ FrameOf(store, size) = Bytes(HeaderIn(store), FieldsIn(store), PayloadIn(store, size))
    /\ Fits(Count(size)) /\ Len(PayloadIn(store, size)) = ts * Count(size)
\* nothing behind the claimed size matters
TailFree == \A i \in (size + 1)..cap : \A v \in Digits : Valid([store EXCEPT ![i] = v], size) = Valid(store, size)
Noticed == [][op'.e = "poke" /\ Valid(store, size) /\ op'.i <= size => ~Valid(store', size')]_fvars
=============================================================================
