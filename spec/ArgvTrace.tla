----------------------------- MODULE ArgvTrace ------------------------------
(* Recorded parses against Argv.  Tokens and names are sequences of bytes.   *)
(* Numbers are compared as int, or as a count of thousandths.                *)
EXTENDS Argv, IOUtils
VARIABLES l, tab
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Space == {9, 10, 11, 12, 13, 32}
Digit(c) == c \in 48..57
RECURSIVE Skip(_, _), Digits(_, _)
Skip(s, i) == IF i <= Len(s) /\ (IF i <= Len(s) THEN s[i] \in Space ELSE FALSE) THEN Skip(s, i + 1) ELSE i
Digits(s, i) == IF i <= Len(s) /\ (IF i <= Len(s) THEN Digit(s[i]) ELSE FALSE) THEN Digits(s, i + 1) ELSE i    \* first position that is no digit
At(s, i, c) == IF i <= Len(s) THEN s[i] \in c ELSE FALSE
IntMax == 2147483647
RECURSIVE IntVal(_, _, _, _, _)
IntVal(s, i, j, neg, a) ==      \* digits i..j-1, clamped
    IF i >= j THEN a
    ELSE LET d == s[i] - 48
         IN IF neg THEN IF a < -214748364 \/ (a = -214748364 /\ d > 8) THEN -IntMax - 1 ELSE IntVal(s, i + 1, j, neg, a * 10 - d)
            ELSE IF a > 214748364 \/ (a = 214748364 /\ d > 7) THEN IntMax ELSE IntVal(s, i + 1, j, neg, a * 10 + d)
ToInt(s) == LET b == Skip(s, 1)
                neg == At(s, b, {45})
                f == IF At(s, b, {43, 45}) THEN b + 1 ELSE b
            IN IntVal(s, f, Digits(s, f), neg, 0)
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* sign digits [. digits] [e sign digits], in thousandths; "big" and "-big" beyond 1000000 *)
ToMilli(s) ==
    LET b == Skip(s, 1)
        neg == At(s, b, {45})
        f == IF At(s, b, {43, 45}) THEN b + 1 ELSE b
        p == Digits(s, f)
        frac == IF At(s, p, {46}) THEN p + 1 ELSE p
        q == IF At(s, p, {46}) THEN Digits(s, frac) ELSE p
        none == p = f /\ q = frac
        ex == At(s, q, {69, 101})
        xneg == ex /\ At(s, q + 1, {45})
        xf == IF ex /\ At(s, q + 1, {43, 45}) THEN q + 2 ELSE q + 1
        xe == IF ex THEN Digits(s, xf) ELSE xf
        x == IF ex THEN (IF xneg THEN -1 ELSE 1) * IntVal(s, xf, IF xe > xf + 4 THEN xf + 4 ELSE xe, FALSE, 0) ELSE 0
        digs == SubSeq(s, f, p - 1) \o SubSeq(s, frac, q - 1)
        point == (p - f) + x      \* digits before the decimal point
        want == point + 3         \* digits that count in thousandths
        zero == \A i \in 1..Len(digs) : digs[i] = 48
        lead == IF zero THEN 0 ELSE (CHOOSE i \in 1..Len(digs) : digs[i] # 48 /\ \A k \in 1..(i - 1) : digs[k] = 48) - 1
        m == IF none \/ zero THEN 0
             ELSE IF want - lead > 9 THEN IntMax
             ELSE IF want <= 0 THEN 0
             ELSE IF want >= Len(digs) THEN IntVal(digs, 1, Len(digs) + 1, FALSE, 0) * Pow10(want - Len(digs))
             ELSE IntVal(digs, 1, want + 1, FALSE, 0)
    IN IF m > 1000000000 THEN (IF neg THEN "-big" ELSE "big") ELSE ToString(IF neg THEN -m ELSE m)
Wrapped(kind, tok, blank) == IF Skip(tok, 1) > Len(tok) THEN "blank" ELSE IF kind = "int" THEN ToString(ToInt(tok)) ELSE ToMilli(tok)
TInit == l = 1 /\ tab = <<>> /\ vals = << >> /\ op = [e |-> "none"]
Step == CASE Ev.e = "init" -> tab' = Ev.table /\ vals' = Ev.vals
          [] Ev.e = "parse" -> /\ vals' = Declared(tab, vals, Ev.argv, Wrapped)
                               /\ Ev.vals = vals'       \* the returned options
                               /\ Ev.kept = vals'       \* and those the parser keeps
                               /\ UNCHANGED tab
          [] Ev.e = "done" -> UNCHANGED <<tab, vals>>
          [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ Step
TSpec == TInit /\ [][TNext]_<<vals, op, l, tab>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
