--------------------------- MODULE ContainersTrace --------------------------
EXTENDS Containers, IOUtils
VARIABLES l, roomy
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Logged == [c \in {Ev.all[i][1] : i \in 1..Len(Ev.all)} |-> (CHOOSE i \in 1..Len(Ev.all) : Ev.all[i][1] = c)]
AsLogged == st' = [c \in DOMAIN Logged |-> Ev.all[Logged[c]][2]]

Huge == Ev.k \in {"rsv", "rsz"} /\ Ev.a > 1000000
TInit == l = 1 /\ roomy = FALSE /\ st = << >> /\ op = [k |-> "none"]
Step ==
  CASE Ev.e = "init" -> st' = << >> /\ roomy' = Ev.roomy
    [] Ev.e = "new"  -> IF Ev.res = "ok" THEN Create(Ev.c) /\ AsLogged ELSE UNCHANGED st /\ AsLogged /\ ~roomy
    [] Ev.e = "del"  -> Destroy(Ev.c) /\ AsLogged
    [] Ev.e = "op"   ->
         IF Ev.res # "ok"
         THEN /\ UNCHANGED st /\ AsLogged
              /\ Huge \/ (Ev.res = "oom" /\ ~roomy)      \* refused only if it does not fit
         ELSE IF Ev.k = "mov"
              THEN /\ AsLogged /\ DOMAIN st' = DOMAIN st
                   /\ st'[Ev.c] = st[Ev.b]
                   /\ \A x \in DOMAIN st \ {Ev.c, Ev.b} : st'[x] = st[x]
              ELSE Apply(Ev.k, Ev.c, Ev.a, Ev.b) /\ AsLogged
    [] Ev.e = "alloc" ->
         /\ UNCHANGED st /\ AsLogged /\ Ev.null = 0
         /\ Ev.bytes = 0 \/ (Ev.res = "ok") = (~Ev.over /\ Ev.bytes <= Ev.largest)
    [] Ev.e = "dealloc" -> UNCHANGED st /\ AsLogged
    [] Ev.e = "eq" -> Ev.ok /\ UNCHANGED st
    [] Ev.e = "end" -> Ev.back /\ st' = << >> /\ AsLogged
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ op' = op /\ (Ev.e = "init" \/ UNCHANGED roomy) /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l, roomy>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            d = Len(Trace) \/ (PrintT("REJECT " \o ToString(d + 1)) /\ FALSE)
=============================================================================
