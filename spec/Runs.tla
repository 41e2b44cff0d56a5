--------------------------------- MODULE Runs ---------------------------------
(* Long byte strings as runs <<value, count>>, so that buffers of tens of    *)
(* thousands of bytes can be specified.  Norm is the canonical form: no      *)
(* empty run, neighbours differ.  The checksums have closed forms per run.   *)
EXTENDS Checksum
RECURSIVE RLen(_)
RLen(r) == IF r = <<>> THEN 0 ELSE r[1][2] + RLen(Tail(r))
RECURSIVE Norm(_)
Norm(r) == IF r = <<>> THEN <<>>
           ELSE IF r[1][2] = 0 THEN Norm(Tail(r))
           ELSE LET t == Norm(Tail(r)) IN
                IF t # <<>> /\ t[1][1] = r[1][1] THEN <<<<t[1][1], t[1][2] + r[1][2]>>>> \o Tail(t) ELSE <<r[1]>> \o t
Front(r, n) ==   \* the first n bytes
    LET F[k \in 0..Len(r)] == IF k = 0 THEN [rest |-> n, out |-> <<>>]
                              ELSE LET p == F[k - 1] IN LET c == IF r[k][2] < p.rest THEN r[k][2] ELSE p.rest IN
                                   [rest |-> p.rest - c, out |-> Append(p.out, <<r[k][1], c>>)]
    IN Norm(F[Len(r)].out)
Drop(r, n) ==    \* all but the first n bytes
    LET F[k \in 0..Len(r)] == IF k = 0 THEN [rest |-> n, out |-> <<>>]
                              ELSE LET p == F[k - 1] IN LET c == IF r[k][2] < p.rest THEN r[k][2] ELSE p.rest IN
                                   [rest |-> p.rest - c, out |-> Append(p.out, <<r[k][1], r[k][2] - c>>)]
    IN Norm(F[Len(r)].out)
Cut(r, a, n) == Front(Drop(r, a), n)      \* n bytes behind the first a
RunsOf(s) == Norm([i \in 1..Len(s) |-> <<s[i], 1>>])
RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[1][2] |-> r[1][1]] \o Expand(Tail(r))
RNorm(r) == Norm(r) = r
\* 1 + 2 + ... + n, modulo m
Tri(n, m) == LET k == n % (2 * m) IN ((k * (k + 1)) \div 2) % m
RECURSIVE RWeigh(_, _, _)
RWeigh(r, at, a) == IF r = <<>> THEN a
                    ELSE LET v == r[1][1] IN LET n == r[1][2] IN
                         RWeigh(Tail(r), at + n, (a + v * (((n % 256) * (at % 256) + Tri(n, 256)) % 256)) % 256)
RECURSIVE RFletcher(_, _, _)
RFletcher(r, a, b) == IF r = <<>> THEN <<a, b>>
                      ELSE LET v == r[1][1] % 255 IN LET n == r[1][2] IN
                           RFletcher(Tail(r), (a + (n % 255) * v) % 255, (b + (n % 255) * a + v * Tri(n, 255)) % 255)
RCrc(kd, r) == CASE kd = "sum8" -> <<RWeigh(r, 0, 0)>>
                 [] kd = "f16l" -> RFletcher(r, 0, 0)
                 [] kd = "f16m" -> LET p == RFletcher(r, 0, 0) IN <<p[2], p[1]>>
(* ---- the operators on runs mean what those on bytes mean: all small runs, *)
(* checked by TLC when RunsCheck is the specification                        *)
CONSTANTS CVals, CCounts, CLen
CheckRuns == UNION {[1..k -> CVals \X CCounts] : k \in 0..CLen}
Sound(r) == LET s == Expand(r) IN
    /\ RLen(r) = Len(s) /\ Expand(Norm(r)) = s /\ RunsOf(s) = Norm(r)
    /\ \A n \in 0..Len(s) : Expand(Front(r, n)) = SubSeq(s, 1, n) /\ Expand(Drop(r, n)) = SubSeq(s, n + 1, Len(s))
    /\ \A kd \in {"sum8", "f16l", "f16m"} : RCrc(kd, r) = Crc(kd, s)
VARIABLE pick
RunsInit == pick \in CheckRuns
RunsSpec == RunsInit /\ [][FALSE]_pick
RunsSound == Sound(pick)
RunsSums == LET s == Expand(pick) IN \A kd \in {"sum8", "f16l", "f16m"} : RCrc(kd, pick) = Crc(kd, s)
=============================================================================
