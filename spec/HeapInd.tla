------------------------------ MODULE HeapInd ------------------------------
(* The block list of StaticHeap for heaps and requests of any size, up to K  *)
(* blocks at a time.  Apalache shows IndInv to be inductive.                 *)
EXTENDS Integers
CONSTANT
    \* @type: Int;
    K,
    \* @type: Int;
    OneSide     \* 1: a release joins only the block behind (must fail)
VARIABLES
    \* @type: Int;
    total,
    \* @type: Int;
    cnt,
    \* @type: Int -> Int;
    off,
    \* @type: Int -> Int;
    size,
    \* @type: Int -> Bool;
    used,
    \* @type: Int -> Int;
    req,        \* what was asked for a used block
    \* @type: Int;
    free,
    \* @type: Int;
    minf,
    \* @type: Int;
    live        \* allocations made less blocks freed
Hdr == 16
MinSplit == 32
Ix == 1..K
RoundUp(n) == ((n + 7) \div 8) * 8
CInit3 == K = 3 /\ OneSide = 0
CInit4 == K = 4 /\ OneSide = 0
CInit5 == K = 5 /\ OneSide = 0
CInit6 == K = 6 /\ OneSide = 0
CBroken == K = 3 /\ OneSide = 1
Init == /\ total \in Int /\ total % 8 = 0 /\ total >= Hdr
        /\ cnt = 1 /\ off = [i \in Ix |-> 0] /\ size = [i \in Ix |-> total] /\ used = [i \in Ix |-> FALSE]
        /\ req = [i \in Ix |-> 0] /\ free = total /\ minf = total /\ live = 0
Fits(i, need) == i <= cnt /\ ~used[i] /\ size[i] >= need
Alloc == \E r \in Int, i \in Ix :
    /\ r > 0
    /\ LET need == RoundUp(r + Hdr)
           split == size[i] - need > MinSplit
           cost == IF split THEN need ELSE size[i]
       IN /\ Fits(i, need) /\ \A j \in Ix : j < i => ~Fits(j, need)
          /\ split => cnt < K
          /\ IF split
             THEN /\ cnt' = cnt + 1
                  /\ off' = [j \in Ix |-> IF j <= i THEN off[j] ELSE IF j = i + 1 THEN off[i] + need ELSE off[j - 1]]
                  /\ size' = [j \in Ix |-> IF j < i THEN size[j] ELSE IF j = i THEN need
                                           ELSE IF j = i + 1 THEN size[i] - need ELSE size[j - 1]]
                  /\ used' = [j \in Ix |-> IF j < i THEN used[j] ELSE IF j = i THEN TRUE
                                           ELSE IF j = i + 1 THEN FALSE ELSE used[j - 1]]
                  /\ req' = [j \in Ix |-> IF j < i THEN req[j] ELSE IF j = i THEN r ELSE IF j = i + 1 THEN 0 ELSE req[j - 1]]
             ELSE /\ cnt' = cnt /\ off' = off /\ size' = size
                  /\ used' = [used EXCEPT ![i] = TRUE] /\ req' = [req EXCEPT ![i] = r]
          /\ free' = free - cost /\ minf' = (IF free - cost < minf THEN free - cost ELSE minf)
    /\ live' = live + 1 /\ UNCHANGED total
Free == \E i \in Ix :
    /\ i <= cnt /\ used[i]
    /\ LET lo == IF OneSide = 0 /\ i > 1 /\ ~used[i - 1] THEN i - 1 ELSE i
           hi == IF i < cnt /\ ~used[i + 1] THEN i + 1 ELSE i
           gone == hi - lo
           new == off[hi] + size[hi] - off[lo]
       IN /\ cnt' = cnt - gone
          /\ off' = [j \in Ix |-> IF j <= lo \/ j + gone > K THEN off[j] ELSE off[j + gone]]
          /\ size' = [j \in Ix |-> IF j < lo \/ j + gone > K THEN size[j] ELSE IF j = lo THEN new ELSE size[j + gone]]
          /\ used' = [j \in Ix |-> IF j < lo \/ j + gone > K THEN used[j] ELSE IF j = lo THEN FALSE ELSE used[j + gone]]
          /\ req' = [j \in Ix |-> IF j <= lo \/ j + gone > K THEN req[j] ELSE req[j + gone]]
          /\ free' = free + size[i]
    /\ live' = live - 1 /\ UNCHANGED <<total, minf>>
Reset == minf' = free /\ UNCHANGED <<total, cnt, off, size, used, req, free, live>>
Next == Alloc \/ Free \/ Reset
(* ------------------------------------------------------------- properties *)
\* @type: (Int, Int) => Int;
Sum2(i, acc) == acc + (IF i <= K /\ i <= cnt /\ ~used[i] THEN size[i] ELSE 0)
FreeSum == Sum2(1, Sum2(2, Sum2(3, Sum2(4, Sum2(5, Sum2(6, 0))))))
\* @type: (Int, Int) => Int;
Cnt2(i, acc) == acc + (IF i <= K /\ i <= cnt /\ used[i] THEN 1 ELSE 0)
UsedCount == Cnt2(1, Cnt2(2, Cnt2(3, Cnt2(4, Cnt2(5, Cnt2(6, 0))))))
Disjoint == \A i, j \in Ix : i < j /\ j <= cnt /\ used[i] /\ used[j] => off[i] + Hdr + req[i] <= off[j]
Inside == \A i \in Ix : i <= cnt /\ used[i] => off[i] >= 0 /\ off[i] + Hdr + req[i] <= total /\ off[i] % 8 = 0
Coalesced == \A i \in Ix : i < cnt => used[i] \/ used[i + 1]
AllFreeIsWhole == live = 0 => cnt = 1 /\ free = total
(* -------------------------------------------------------------- invariant *)
IndInv ==
    /\ total % 8 = 0 /\ total >= Hdr /\ cnt >= 1 /\ cnt <= K
    /\ off[1] = 0
    /\ \A i \in Ix : i < cnt => off[i] + size[i] = off[i + 1]
    /\ \A i \in Ix : i = cnt => off[i] + size[i] = total
    /\ \A i \in Ix : i <= cnt => size[i] >= Hdr /\ size[i] % 8 = 0 /\ off[i] % 8 = 0
    /\ \A i \in Ix : i <= cnt /\ used[i] => req[i] > 0 /\ Hdr + req[i] <= size[i]
    /\ Coalesced
    /\ free = FreeSum /\ minf <= free /\ live = UsedCount
Props == Disjoint /\ Inside /\ Coalesced /\ AllFreeIsWhole
IndInit ==
    /\ total \in Int /\ cnt \in Int /\ off \in [Ix -> Int] /\ size \in [Ix -> Int] /\ used \in [Ix -> BOOLEAN]
    /\ req \in [Ix -> Int] /\ free \in Int /\ minf \in Int /\ live \in Int
    /\ IndInv
=============================================================================
