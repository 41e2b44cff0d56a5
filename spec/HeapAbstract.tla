---------------------------- MODULE HeapAbstract ----------------------------
(* What any allocator over a fixed arena must guarantee, whatever its        *)
(* placement policy: the live blocks (what users hold) are inside the arena, *)
(* 8-aligned and pairwise disjoint.                                          *)
EXTENDS Integers, FiniteSets
VARIABLES asize, live

Disjoint(a, n, b, m) == a + n <= b \/ b + m <= a

AInit == asize \in Nat /\ live = {}

Free(off, req) ==     \* these bytes may be handed out
    /\ off >= 0 /\ req > 0
    /\ off % 8 = 0
    /\ off <= asize /\ req <= asize - off      \* the sum may be past what TLC can count
    /\ \A b \in live : Disjoint(off, req, b.off, b.req)

AAlloc(off, req) ==
    /\ Free(off, req)
    /\ live' = live \cup {[off |-> off, req |-> req]}
    /\ UNCHANGED asize

AFree(off) ==
    /\ \E b \in live : b.off = off
    /\ live' = {b \in live : b.off # off}
    /\ UNCHANGED asize

ANext == \/ \E off \in 0..asize, req \in 1..asize : AAlloc(off, req)
         \/ \E b \in live : AFree(b.off)

ASpec == AInit /\ [][ANext]_<<asize, live>>

NoOverlap == \A b, c \in live : b # c => Disjoint(b.off, b.req, c.off, c.req)
InArena == \A b \in live : b.off >= 0 /\ b.off + b.req <= asize /\ b.off % 8 = 0
=============================================================================
