--------------------------- MODULE PublisherTrace ---------------------------
(* Checks recorded executions of the real publishers.                        *)
(* Prop O01/O02/V02: registration and delivery;  O03: all of it;             *)
(* O04: disconnects;  V01: values, returned results and update functions.    *)
EXTENDS Publisher, IOUtils
CONSTANT Prop
VARIABLES l, val, width,
          last,    \* the value last delivered to each observed value
          fn,      \* the update function each observed value has (0: none)
          unit     \* what an increment adds: fractions are counted in quarters
tvars == <<pvars, op, l, val, width, last, fn, unit>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]

Registration == Prop \in {"O01", "O02", "O03", "V02"}
Delivery     == Prop \in {"O01", "O02", "O03", "V01", "V02"}
Disconnects  == Prop \in {"O03", "O04"}

(* -------- values are bit patterns of width bits in 16-bit limbs ---------- *)
Limbs == 1..4
Mask(i) == LET left == width - 16*(i-1) IN IF left >= 16 THEN 65536 ELSE IF left <= 0 THEN 1 ELSE 2^left
RECURSIVE AddC(_, _, _, _)
AddC(x, y, i, c) == IF i > 4 THEN <<>>
                    ELSE LET s == x[i] + y[i] + c IN <<s % 65536>> \o AddC(x, y, i+1, s \div 65536)
Wrap(x) == [i \in Limbs |-> x[i] % Mask(i)]
Plus(x, y) == Wrap(AddC(x, y, 1, 0))
Minus(x, y) == Wrap(AddC(x, [i \in Limbs |-> 65535 - y[i]], 1, 1))
One == <<unit, 0, 0, 0>>
NewValue(k, old, a) == CASE k = "set" -> Wrap(a)
                         [] k \in {"preinc", "postinc"} -> Plus(old, One)
                         [] k \in {"predec", "postdec"} -> Minus(old, One)
                         [] k = "add" -> Plus(old, a)
                         [] k = "sub" -> Minus(old, a)
Returned(k, new) == CASE k = "postinc" -> Minus(new, One)      \* the value before the update
                      [] k = "postdec" -> Plus(new, One)
                      [] OTHER -> new

Pubs == 0..3
TInit == /\ l = 1 /\ kind = "os" /\ cap = 0 /\ stack = <<>> /\ op = [e |-> "none"] /\ val = <<>> /\ width = 32 /\ last = <<>> /\ fn = <<>> /\ unit = 1
         /\ reg = [p \in Pubs |-> <<>>] /\ pend = [p \in Pubs |-> <<>>]
Init0 == /\ kind' = Ev.kind /\ cap' = Ev.cap /\ stack' = <<>> /\ width' = Ev.width
         /\ reg' = [p \in Pubs |-> <<>>] /\ pend' = [p \in Pubs |-> <<>>]
         /\ val' = [p \in Pubs |-> <<0, 0, 0, 0>>] /\ last' = [o \in 0..(Ev.obs - 1) |-> <<0, 0, 0, 0>>]
         /\ fn' = [o \in 0..(Ev.obs - 1) |-> 1] /\ unit' = IF Ev.kind \in {"vs", "vd"} THEN Ev.unit ELSE 1
Quiet == UNCHANGED <<val, width, last, fn, unit>>
Same == UNCHANGED pvars

DoAdd == /\ Quiet
         /\ Registration => Ev.res = AddResult(Ev.p, Ev.o)
         /\ IF Registration THEN Add(Ev.p, Ev.o)
            ELSE /\ reg' = IF Ev.res = "ok" THEN [reg EXCEPT ![Ev.p] = Append(@, Ev.o)] ELSE reg
                 /\ UNCHANGED <<kind, cap, pend, stack>>
DoRem == /\ Quiet
         /\ Registration => Ev.res = RemResult(Ev.p, Ev.o) \/ Leaving(Ev.p, Ev.o)
         /\ Rem(Ev.p, Ev.o)
(* n times: add o, remove o *)
DoChurn == /\ Quiet
           /\ Registration => Ev.ok = IF Has(Members(Ev.p), Ev.o) THEN 2 * Ev.n - 1     \* the first add is refused
                                      ELSE IF AddResult(Ev.p, Ev.o) = "full" THEN 0 ELSE 2 * Ev.n
           /\ Rem(Ev.p, Ev.o)
DoGot == /\ Quiet
         /\ IF Delivery THEN Got(Ev.p, Ev.o, Ev.d)
            ELSE /\ Has(Members(Ev.p), Ev.o) /\ stack # <<>>
                 /\ SetTop([Top EXCEPT !.cb = Ev.o]) /\ UNCHANGED <<kind, cap, reg, pend>>
DoNotifyEnd ==
    /\ Quiet
    /\ Delivery => Ev.res = (IF Top.t = "r" THEN "recursion" ELSE "ok")
    /\ IF Delivery THEN NotifyEnd(Ev.p) ELSE PopFrame /\ UNCHANGED <<kind, cap, reg, pend>>
DoDisc == /\ Quiet
          /\ IF Disconnects THEN Ev.s = Ev.p /\ Disc(Ev.p, Ev.o)
             ELSE /\ stack # <<>> /\ SetTop([Top EXCEPT !.cb = Ev.o])
                  /\ pend' = [pend EXCEPT ![Ev.p] = Drop(@, Ev.o)] /\ UNCHANGED <<kind, cap, reg>>
DoClearEnd == /\ Quiet
              /\ IF Disconnects THEN ClearEnd(Ev.p)
                 ELSE PopFrame /\ pend' = [pend EXCEPT ![Ev.p] = <<>>] /\ UNCHANGED <<kind, cap, reg>>
DoDestroyEnd == /\ Quiet
                /\ (Disconnects => pend[Ev.p] = <<>>)
                /\ PopFrame /\ UNCHANGED <<kind, cap>>
                /\ pend' = [pend EXCEPT ![Ev.p] = <<>>] /\ reg' = [reg EXCEPT ![Ev.p] = <<>>]
DoCreate == /\ val' = [val EXCEPT ![Ev.p] = <<0, 0, 0, 0>>] /\ UNCHANGED <<width, last, fn, unit>> /\ Same

(* an update of an observable value is a delivery of the new value *)
DoUpdateBegin ==
    LET new == NewValue(Ev.k, val[Ev.p], Ev.a) IN
    /\ val' = [val EXCEPT ![Ev.p] = new] /\ UNCHANGED <<width, last, fn, unit>>
    /\ NotifyBegin(Ev.p, IF Prop = "V01" THEN new ELSE <<>>)
DoFunction == fn' = [fn EXCEPT ![Ev.o] = Ev.f] /\ UNCHANGED <<val, width, last, unit>> /\ Same
(* values without an update function take the new value silently *)
RECURSIVE Silent(_)
Silent(s) == IF s = <<>> \/ fn[Head(s)] # 0 THEN 0 ELSE 1 + Silent(Tail(s))
Told(n) == [o \in DOMAIN last |-> IF Has(SubSeq(Top.todo, 1, n), o) THEN Top.d ELSE last[o]]
Rest(n) == SubSeq(Top.todo, n + 1, Len(Top.todo))
DoUpdateEnd ==
    /\ UNCHANGED <<val, width, fn, unit>>
    /\ IF Delivery
       THEN LET n == Silent(Top.todo) t == Told(n) IN
            /\ last' = t
            /\ stack # <<>> /\ Top.p = Ev.p /\ Top.t \in {"n", "r"} /\ Top.cb = -1 /\ Rest(n) = <<>>
            /\ PopFrame /\ UNCHANGED <<kind, cap, reg, pend>>
            /\ Prop = "V01" => /\ Ev.val = val[Ev.p]
                               /\ Ev.res = Returned(Ev.k, val[Ev.p])
                               /\ \A i \in 1..Len(Ev.seen) : Ev.seen[i][2] = t[Ev.seen[i][1]]
       ELSE PopFrame /\ UNCHANGED <<kind, cap, reg, pend, last>>
DoGotValue ==
    /\ UNCHANGED <<val, width, fn, unit>>
    /\ IF Delivery
       THEN LET n == Silent(Top.todo) d == IF Prop = "V01" THEN Ev.v ELSE <<>> IN
            /\ last' = [Told(n) EXCEPT ![Ev.o] = Ev.v]
            /\ stack # <<>> /\ Top.t = "n" /\ Top.p = Ev.p /\ Top.cb = -1
            /\ Rest(n) # <<>> /\ Rest(n)[1] = Ev.o /\ Top.d = d
            /\ Prop = "V01" => fn[Ev.o] = Ev.f
            /\ SetTop([Top EXCEPT !.todo = Tail(Rest(n)), !.cb = Ev.o])
            /\ UNCHANGED <<kind, cap, reg, pend>>
       ELSE /\ Has(Members(Ev.p), Ev.o) /\ stack # <<>> /\ last' = [last EXCEPT ![Ev.o] = Ev.v]
            /\ SetTop([Top EXCEPT !.cb = Ev.o]) /\ UNCHANGED <<kind, cap, reg, pend>>

Step == CASE Ev.e = "init" -> Init0
          [] Ev.e = "add" -> DoAdd
          [] Ev.e = "rem" -> DoRem
          [] Ev.e = "churn" -> DoChurn
          [] Ev.e = "nbeg" -> NotifyBegin(Ev.p, Ev.d) /\ Quiet
          [] Ev.e = "got" -> Ev.s = Ev.p /\ DoGot
          [] Ev.e = "nend" -> DoNotifyEnd
          [] Ev.e \in {"cbeg", "dbeg"} -> ClearBegin(Ev.p) /\ Quiet
          [] Ev.e = "disc" -> DoDisc
          [] Ev.e = "cend" -> DoClearEnd
          [] Ev.e = "dend" -> DoDestroyEnd
          [] Ev.e = "new" -> DoCreate
          [] Ev.e = "fn" -> DoFunction
          [] Ev.e = "ubeg" -> DoUpdateBegin
          [] Ev.e = "gotv" -> DoGotValue
          [] Ev.e = "uend" -> DoUpdateEnd
          [] Ev.e = "ret" -> Ret /\ Quiet
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
