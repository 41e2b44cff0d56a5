------------------------------- MODULE Argv --------------------------------
(* The command-line parser.  The specification proper is Declared: what each *)
(* option holds after a command line, stated over the whole line.  ParseOp   *)
(* is the algorithm: arguments left to right, every option looked at once    *)
(* per argument.  TLC checks that both agree on every line.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tokens, MaxLen, MTable    \* MTable: sequence of [name, kind, member] in registration order
VARIABLES vals, op
Members(tab) == {tab[i].member : i \in 1..Len(tab)}
(* a name registered twice stands for what it was registered for last *)
Regs(tab) == {i \in 1..Len(tab) : \A j \in (i + 1)..Len(tab) : tab[j].name # tab[i].name}
Names(tab, m) == {tab[i].name : i \in {j \in Regs(tab) : tab[j].member = m}}
KindOf(tab, m) == LET i == CHOOSE j \in 1..Len(tab) : tab[j].member = m IN tab[i].kind
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
(* Conv(kind, token, previous): what a value option becomes *)
Declared(tab, old, argv, Conv(_, _, _)) ==
    [m \in DOMAIN old |->
        IF m \notin Members(tab) THEN old[m]
        ELSE LET at == {i \in 1..Len(argv) : argv[i] \in Names(tab, m)}
                 with == at \ {Len(argv)}
             IN CASE KindOf(tab, m) = "flag" -> IF at # {} THEN TRUE ELSE old[m]
                  [] KindOf(tab, m) = "text" -> IF with # {} THEN argv[Max(with) + 1] ELSE old[m]
                  [] OTHER ->     \* a number: a blank argument leaves what earlier occurrences made of it
                       LET good == {i \in with : Conv(KindOf(tab, m), argv[i + 1], "blank") # "blank"}
                       IN IF good # {} THEN Conv(KindOf(tab, m), argv[Max(good) + 1], "blank") ELSE old[m]]
(* ------------------------------------------------------------ bounded model *)
MConv(kind, tok, blank) == CASE tok = "" -> blank [] tok = "5" -> "#5" [] tok = "7x" -> "#7" [] OTHER -> "#0"
RECURSIVE ParseOp(_, _, _, _)
ParseOp(tab, v, argv, i) ==
    IF i > Len(argv) THEN v
    ELSE LET hit == {j \in Regs(tab) : tab[j].name = argv[i]}
             w == IF hit = {} THEN v
                  ELSE LET o == tab[CHOOSE j \in hit : TRUE]
                       IN IF o.kind = "flag" THEN [v EXCEPT ![o.member] = TRUE]
                          ELSE IF i = Len(argv) THEN v
                          ELSE IF o.kind = "text" THEN [v EXCEPT ![o.member] = argv[i + 1]]
                          ELSE LET c == MConv(o.kind, argv[i + 1], "blank")
                               IN IF c = "blank" THEN v ELSE [v EXCEPT ![o.member] = c]
         IN ParseOp(tab, w, argv, i + 1)
Lines == UNION {[1..n -> Tokens] : n \in 0..MaxLen}
Old == [m \in Members(MTable) |-> IF KindOf(MTable, m) = "flag" THEN FALSE ELSE "old"]
Init == vals = Old /\ op = [e |-> "init"]
Parse(a) == vals' = ParseOp(MTable, vals, a, 1) /\ op' = [e |-> "parse", argv |-> a]
Next == op.e = "init" /\ \E a \in Lines : Parse(a)
Spec == Init /\ [][Next]_<<vals, op>>
View == <<vals, op>>
Emit == PrintT("LINE " \o ToJson(op'.argv))
Agree == [][vals' = Declared(MTable, vals, op'.argv, MConv)]_<<vals, op>>
Untouched == [][\A m \in Members(MTable) : vals'[m] # vals[m] => \E i \in 1..Len(op'.argv) : op'.argv[i] \in Names(MTable, m)]_<<vals, op>>
Again == op.e = "parse" => ParseOp(MTable, vals, op.argv, 1) = vals     \* parsing the same line again changes nothing
T0 == <<[name |-> "-s", kind |-> "text", member |-> "s1"], [name |-> "-n", kind |-> "int", member |-> "i1"],
        [name |-> "-f", kind |-> "flag", member |-> "b1"], [name |-> "--s", kind |-> "text", member |-> "s1"]>>
T1 == <<[name |-> "-s", kind |-> "text", member |-> "s1"], [name |-> "-n", kind |-> "int", member |-> "i1"],
        [name |-> "-s", kind |-> "int", member |-> "i2"], [name |-> "-n", kind |-> "flag", member |-> "b1"], [name |-> "-m", kind |-> "int", member |-> "i1"]>>
=============================================================================
