--------------------------- MODULE StaticPublisher --------------------------
(* Publishers whose observers are fixed when they are built.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
VARIABLES bound,    \* live publishers -> their observers, in the order given
          source,   \* the identity observers saw for a publisher (0: none yet)
          stack,    \* deliveries in progress: [p, d, todo, cb]
          op
vars == <<bound, source, stack, op>>
Top == stack[Len(stack)]
Idle == IF stack = <<>> THEN TRUE ELSE Top.cb
SetTop(f) == stack' = SubSeq(stack, 1, Len(stack)-1) \o <<f>>

New(p, obs) == /\ p \notin DOMAIN bound
               /\ bound' = bound @@ (p :> obs) /\ source' = source @@ (p :> 0) /\ UNCHANGED stack
Del(p) == /\ p \in DOMAIN bound
          /\ bound' = [x \in DOMAIN bound \ {p} |-> bound[x]]
          /\ source' = [x \in DOMAIN source \ {p} |-> source[x]] /\ UNCHANGED stack
NotifyBegin(p, d) == /\ p \in DOMAIN bound
                     /\ stack' = Append(stack, [p |-> p, d |-> d, todo |-> bound[p], cb |-> FALSE])
                     /\ UNCHANGED <<bound, source>>
Got(o, s, d) ==
    /\ stack # <<>> /\ ~Top.cb /\ Top.todo # <<>>
    /\ Head(Top.todo) = o /\ Top.d = d
    /\ source[Top.p] \in {0, s} /\ \A q \in DOMAIN source \ {Top.p} : source[q] # s
    /\ source' = [source EXCEPT ![Top.p] = s]
    /\ SetTop([Top EXCEPT !.todo = Tail(@), !.cb = TRUE]) /\ UNCHANGED bound
Ret == stack # <<>> /\ Top.cb /\ SetTop([Top EXCEPT !.cb = FALSE]) /\ UNCHANGED <<bound, source>>
NotifyEnd(p) == /\ stack # <<>> /\ Top.p = p /\ ~Top.cb /\ Top.todo = <<>>
                /\ stack' = SubSeq(stack, 1, Len(stack)-1) /\ UNCHANGED <<bound, source>>

CONSTANTS MBound, MDepth
MInit == bound = MBound /\ source = [p \in DOMAIN MBound |-> 0] /\ stack = <<>> /\ op = [e |-> "init"]
MNext == \/ \E p \in DOMAIN bound :
              \/ Idle /\ Len(stack) < MDepth /\ NotifyBegin(p, Len(stack)) /\ op' = [e |-> "nbeg", p |-> p]
              \/ NotifyEnd(p) /\ op' = [e |-> "nend", p |-> p]
         \/ \E o \in 0..5, s \in 1..3 : (stack # <<>> /\ s = Top.p + 1) /\ \E d \in 0..MDepth : Got(o, s, d) /\ op' = [e |-> "got", o |-> o]
         \/ Ret /\ op' = [e |-> "ret"]
MSpec == MInit /\ [][MNext]_vars
View == <<bound, source, stack>>
Emit == PrintT("EDGE " \o ToJson(<<<<[p \in DOMAIN source |-> source[p]], stack>>, op', <<[p \in DOMAIN source' |-> source'[p]], stack'>> >>))
SourcesDiffer == \A p, q \in DOMAIN source : p # q /\ source[p] # 0 => source[p] # source[q]
(* what a delivery still owes is a suffix of the publisher's observers, so the order is as given and each comes once *)
SuffixLeft == \A i \in 1..Len(stack) : \E k \in 1..(Len(bound[stack[i].p]) + 1) :
                 stack[i].todo = SubSeq(bound[stack[i].p], k, Len(bound[stack[i].p]))
=============================================================================
