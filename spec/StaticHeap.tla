----------------------------- MODULE StaticHeap -----------------------------
(* static_heap: address-ordered first fit with splitting and coalescing.     *)
(* The arena is the byte range [0, Total).  blocks lists, in address order,  *)
(* every block (header included), used or free; live is what callers hold.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Hdr      == 16      \* block header in front of every block handed out
MinSplit == 32      \* a remainder is split off only if larger than this
RoundUp(n) == ((n + 7) \div 8) * 8
Total(sz)  == IF sz < Hdr THEN 0 ELSE ((sz - Hdr) \div 8) * 8      \* an end marker takes Hdr bytes
Whole(sz)  == IF Total(sz) = 0 THEN <<>> ELSE << [off |-> 0, size |-> Total(sz), used |-> FALSE] >>

VARIABLES size, blocks, live, free, minf, na, nf, op
vars == <<size, blocks, live, free, minf, na, nf, op>>

(* ------------------------------ layout functions ------------------------- *)
Fits(b, need) == ~b.used /\ b.size >= need
FirstFit(bs, need) == SelectInSeq(bs, LAMBDA b : Fits(b, need))      \* 0 if none
(* a request is servable iff its rounded size fits some free block *)
Servable(bs, req) == req > 0 /\ FirstFit(bs, RoundUp(req + Hdr)) # 0

Split(b, need) ==
    IF b.size - need > MinSplit
    THEN << [off |-> b.off, size |-> need, used |-> TRUE],
            [off |-> b.off + need, size |-> b.size - need, used |-> FALSE] >>
    ELSE << [b EXCEPT !.used = TRUE] >>
Take(bs, i, need) == SubSeq(bs, 1, i-1) \o Split(bs[i], need) \o SubSeq(bs, i+1, Len(bs))

Release(bs, i) ==
    LET lo == IF i > 1 /\ ~bs[i-1].used THEN i-1 ELSE i
        hi == IF i < Len(bs) /\ ~bs[i+1].used THEN i+1 ELSE i
        m  == [off |-> bs[lo].off, size |-> bs[hi].off + bs[hi].size - bs[lo].off, used |-> FALSE]
    IN SubSeq(bs, 1, lo-1) \o <<m>> \o SubSeq(bs, hi+1, Len(bs))

At(bs, off) == SelectInSeq(bs, LAMBDA b : b.off = off)
RECURSIVE FreeSum(_, _)
FreeSum(bs, i) == IF i > Len(bs) THEN 0 ELSE (IF bs[i].used THEN 0 ELSE bs[i].size) + FreeSum(bs, i+1)
Min2(a, b) == IF a < b THEN a ELSE b

(* --------------------------------- actions ------------------------------- *)
Fresh(sz) == /\ size' = sz
             /\ blocks' = Whole(sz)
             /\ live' = {} /\ free' = Total(sz) /\ minf' = Total(sz) /\ na' = 0 /\ nf' = 0

(* take block i of the layout for a request of req bytes *)
Place(i, req) ==
    LET need == RoundUp(req + Hdr)
        nb   == Take(blocks, i, need)
        cost == nb[i].size
    IN /\ Fits(blocks[i], need)
       /\ blocks' = nb
       /\ live' = live \cup {[off |-> blocks[i].off + Hdr, req |-> req]}
       /\ free' = free - cost
       /\ minf' = Min2(minf, free - cost)
       /\ na' = na + 1
       /\ UNCHANGED <<size, nf>>

AllocOk(req) ==
    /\ Servable(blocks, req)
    /\ LET i == FirstFit(blocks, RoundUp(req + Hdr)) IN
         /\ Place(i, req)
         /\ op' = [e |-> "alloc", req |-> req, off |-> blocks[i].off + Hdr]

AllocFail(req) ==
    /\ ~Servable(blocks, req)
    /\ op' = [e |-> "alloc", req |-> req, off |-> -1]
    /\ UNCHANGED <<size, blocks, live, free, minf, na, nf>>

FreeAt(off) ==
    LET i == At(blocks, off - Hdr) IN
    /\ i # 0 /\ blocks[i].used
    /\ blocks' = Release(blocks, i)
    /\ live' = {b \in live : b.off # off}
    /\ free' = free + blocks[i].size
    /\ nf' = nf + 1
    /\ UNCHANGED <<size, minf, na>>
    /\ op' = [e |-> "free", off |-> off]

ResetMin == /\ minf' = free
            /\ UNCHANGED <<size, blocks, live, free, na, nf>>
            /\ op' = [e |-> "reset"]

(* n times: allocate req, free it.  The layout ends as it was. *)
Churn(n, req) ==
    /\ UNCHANGED <<size, blocks, live, free>>
    /\ IF Servable(blocks, req)
       THEN LET i == FirstFit(blocks, RoundUp(req + Hdr)) IN
            /\ minf' = Min2(minf, free - Take(blocks, i, RoundUp(req + Hdr))[i].size)
            /\ na' = na + n /\ nf' = nf + n
       ELSE UNCHANGED <<minf, na, nf>>

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MSize, MReqs
MInit == /\ size = MSize
         /\ blocks = Whole(MSize)
         /\ live = {} /\ free = Total(MSize) /\ minf = Total(MSize) /\ na = 0 /\ nf = 0
         /\ op = [e |-> "init"]
MNext == \/ \E r \in MReqs : AllocOk(r) \/ AllocFail(r)
         \/ \E b \in live : FreeAt(b.off)
         \/ ResetMin
MSpec == MInit /\ [][MNext]_vars

View == <<blocks, live, minf>>
Emit == PrintT("EDGE " \o ToJson(<<View, op', <<blocks', live', minf'>> >>))

(* ------------------------------- properties ------------------------------ *)
LayoutOK ==      \* the blocks tile the arena
    /\ blocks[1].off = 0
    /\ \A i \in 1..(Len(blocks)-1) : blocks[i].off + blocks[i].size = blocks[i+1].off
    /\ blocks[Len(blocks)].off + blocks[Len(blocks)].size = Total(size)
    /\ \A i \in 1..Len(blocks) : blocks[i].size >= Hdr /\ blocks[i].off % 8 = 0
Coalesced == \A i \in 1..(Len(blocks)-1) : blocks[i].used \/ blocks[i+1].used
LiveOK == /\ \A b \in live : \E i \in 1..Len(blocks) :
                 blocks[i].used /\ blocks[i].off + Hdr = b.off /\ blocks[i].size >= Hdr + b.req
          /\ Cardinality(live) = Cardinality({i \in 1..Len(blocks) : blocks[i].used})
Accounting == /\ free = FreeSum(blocks, 1) /\ minf <= free
              /\ na - nf = Cardinality(live)
AllFreeIsWhole == live = {} => Len(blocks) = 1 /\ free = Total(size)
Abs == INSTANCE HeapAbstract WITH asize <- size
AbsStep == IF op'.e = "alloc" THEN Abs!AAlloc(op'.off, op'.req) ELSE op'.e = "free" /\ Abs!AFree(op'.off)
AbsSpec == [][AbsStep]_<<size, live>>
=============================================================================
