----------------------------- MODULE Publisher ------------------------------
(* Run-time publishers and observable values: registration, delivery,        *)
(* clearing, and everything observers do from inside a delivery.             *)
(*                                                                           *)
(* reg[p]   observers registered at publisher p, in registration order       *)
(* pend[p]  observers of p that a running clear still has to disconnect      *)
(* stack    calls in progress, innermost last; each frame has                *)
(*          t    "n" delivering, "r" refused delivery, "c" clearing          *)
(*          todo observers this delivery still has to reach                  *)
(*          cb   the observer whose callback is running (-1: none)           *)
(* kind: "os" fixed-capacity publisher, "od" unbounded publisher,            *)
(*       "vs" fixed-capacity observable value, "vd" unbounded one            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

VARIABLES kind, cap, reg, pend, stack, op
pvars == <<kind, cap, reg, pend, stack>>

Has(s, o) == Contains(s, o)
Drop(s, o) == SelectSeq(s, LAMBDA x : x # o)
Bounded(k) == k \in {"os", "vs"}
Top == stack[Len(stack)]
InCallback == IF stack = <<>> THEN TRUE ELSE Top.cb # -1     \* the user's code is running
Clearing(p) == \E i \in 1..Len(stack) : stack[i].p = p /\ stack[i].t = "c"
Delivering(p) == \E i \in 1..Len(stack) : stack[i].p = p /\ stack[i].t = "n"
Leaving(p, o) == \E i \in 1..Len(stack) : stack[i].p = p /\ stack[i].t = "c" /\ stack[i].cb = o
PopFrame == stack' = SubSeq(stack, 1, Len(stack)-1)
SetTop(f) == stack' = SubSeq(stack, 1, Len(stack)-1) \o <<f>>
Members(p) == pend[p] \o reg[p]

(* ------------------------------ registration ----------------------------- *)
AddResult(p, o) == IF Bounded(kind) /\ Len(Members(p)) >= cap THEN "full"
                   ELSE IF Has(Members(p), o) THEN "dup" ELSE "ok"
Add(p, o) ==
    /\ reg' = IF AddResult(p, o) = "ok" THEN [reg EXCEPT ![p] = Append(@, o)] ELSE reg
    /\ UNCHANGED <<kind, cap, pend, stack>>

RemResult(p, o) == IF Has(Members(p), o) THEN "ok" ELSE "none"
Rem(p, o) ==     \* a delivery in progress does not reach o any more
    /\ reg' = [reg EXCEPT ![p] = Drop(@, o)]
    /\ pend' = [pend EXCEPT ![p] = Drop(@, o)]
    /\ stack' = [i \in 1..Len(stack) |->
                   IF stack[i].p = p THEN [stack[i] EXCEPT !.todo = Drop(@, o)] ELSE stack[i]]
    /\ UNCHANGED <<kind, cap>>

(* -------------------------------- delivery ------------------------------- *)
Refused(p) == kind = "os" /\ Delivering(p)
NotifyBegin(p, d) ==
    /\ stack' = Append(stack, [p |-> p, t |-> IF Refused(p) THEN "r" ELSE "n", d |-> d, cb |-> -1,
                               todo |-> IF Refused(p) THEN <<>> ELSE Members(p)])
    /\ UNCHANGED <<kind, cap, reg, pend>>
Got(p, o, d) ==
    /\ stack # <<>> /\ Top.t = "n" /\ Top.p = p /\ Top.cb = -1
    /\ Top.todo # <<>> /\ Head(Top.todo) = o /\ Top.d = d
    /\ SetTop([Top EXCEPT !.todo = Tail(@), !.cb = o])
    /\ UNCHANGED <<kind, cap, reg, pend>>
NotifyEnd(p) ==
    /\ stack # <<>> /\ Top.p = p /\ Top.t \in {"n", "r"} /\ Top.cb = -1 /\ Top.todo = <<>>
    /\ PopFrame /\ UNCHANGED <<kind, cap, reg, pend>>
Ret ==
    /\ stack # <<>> /\ Top.cb # -1
    /\ SetTop([Top EXCEPT !.cb = -1])
    /\ UNCHANGED <<kind, cap, reg, pend>>

(* -------------------------------- clearing ------------------------------- *)
ClearBegin(p) ==
    /\ pend' = [pend EXCEPT ![p] = Members(p)]
    /\ reg' = [reg EXCEPT ![p] = <<>>]
    /\ stack' = Append([i \in 1..Len(stack) |-> IF stack[i].p = p THEN [stack[i] EXCEPT !.todo = <<>>] ELSE stack[i]],
                       [p |-> p, t |-> "c", d |-> 0, cb |-> -1, todo |-> <<>>])
    /\ UNCHANGED <<kind, cap>>
Disc(p, o) ==
    /\ stack # <<>> /\ Top.t = "c" /\ Top.p = p /\ Top.cb = -1
    /\ pend[p] # <<>> /\ Head(pend[p]) = o
    /\ pend' = [pend EXCEPT ![p] = Tail(@)]
    /\ SetTop([Top EXCEPT !.cb = o])
    /\ UNCHANGED <<kind, cap, reg>>
ClearEnd(p) ==
    /\ stack # <<>> /\ Top.t = "c" /\ Top.p = p /\ Top.cb = -1
    /\ pend[p] = <<>> \/ \E i \in 1..(Len(stack)-1) : stack[i].p = p /\ stack[i].t = "c"
    /\ PopFrame /\ UNCHANGED <<kind, cap, reg, pend>>

(* ------------------------------- bounded model --------------------------- *)
CONSTANTS MKind, MCap, MPubs, MObs, MDepth, MNested     \* MNested: calls allowed inside callbacks
Zero == [p \in MPubs |-> <<>>]
MInit == kind = MKind /\ cap = MCap /\ reg = Zero /\ pend = Zero /\ stack = <<>> /\ op = [e |-> "init"]
May(c) == IF stack = <<>> THEN TRUE ELSE InCallback /\ c \in MNested
Deep == Len(stack) < MDepth
MNext ==
    \/ \E p \in MPubs, o \in MObs :
         \/ May("add") /\ Add(p, o) /\ op' = [e |-> "add", p |-> p, o |-> o]
         \/ May("rem") /\ Rem(p, o) /\ op' = [e |-> "rem", p |-> p, o |-> o]
         \/ \E d \in {0} : Got(p, o, d) /\ op' = [e |-> "got", p |-> p, o |-> o]
         \/ Disc(p, o) /\ op' = [e |-> "disc", p |-> p, o |-> o]
    \/ \E p \in MPubs :
         \/ May("notify") /\ Deep /\ NotifyBegin(p, 0) /\ op' = [e |-> "nbeg", p |-> p]
         \/ NotifyEnd(p) /\ op' = [e |-> "nend", p |-> p]
         \/ May("clear") /\ Deep /\ ClearBegin(p) /\ op' = [e |-> "cbeg", p |-> p]
         \/ ClearEnd(p) /\ op' = [e |-> "cend", p |-> p]
    \/ Ret /\ op' = [e |-> "ret"]
MSpec == MInit /\ [][MNext]_<<pvars, op>>
View == pvars
Abbrev(r, q, s) == <<[p \in MPubs |-> r[p]], [p \in MPubs |-> q[p]], s>>
Emit == PrintT("EDGE " \o ToJson(<<Abbrev(reg, pend, stack), op', Abbrev(reg', pend', stack')>>))

NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
TypeOK == \A p \in MPubs : /\ NoDup(Members(p))
                           /\ Bounded(kind) => Len(Members(p)) <= cap
                           /\ pend[p] # <<>> => Clearing(p)
(* what a delivery still has to do is registered, so nothing reaches a removed observer *)
TodoRegistered == \A i \in 1..Len(stack) : stack[i].t = "n" =>
                     \A k \in 1..Len(stack[i].todo) : Has(Members(stack[i].p), stack[i].todo[k])
OneDeliveryIfFixed == kind = "os" => \A p \in MPubs :
                     Cardinality({i \in 1..Len(stack) : stack[i].p = p /\ stack[i].t = "n"}) <= 1
QuietWhenIdle == stack = <<>> => pend = Zero
(* every step keeps the relative order of observers that stay registered *)
OrderKept == [][\A p \in MPubs : \A i, j \in 1..Len(Members(p)) :
                  (i < j /\ Has(Members(p)', Members(p)[i]) /\ Has(Members(p)', Members(p)[j])) =>
                    SelectInSeq(Members(p)', LAMBDA x : x = Members(p)[i]) <
                    SelectInSeq(Members(p)', LAMBDA x : x = Members(p)[j])]_<<pvars, op>>
=============================================================================
