------------------------------- MODULE Holder -------------------------------
(* F01: in-place holders.  A holder has exactly one object; what is done to  *)
(* a holder is done to its object, once, and to nothing else.                *)
(* An object is what it was given; 0 after it was moved from.  log: what the *)
(* last operation did to objects, as <<what, where, from>>.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MSlots, MVals, MKind
(* kinds of objects: "both" copies and moves, "copy" has no moving operations *)
(* (moving copies), "move" cannot be copied                                   *)
VARIABLES kind, obj, log, op
hvars == <<kind, obj, log, op>>
None == -1
Bomb == 13      \* an object of this value cannot be copied, moved or made: it throws
Live(o) == {i \in DOMAIN o : o[i] # None}
\* constructing object i from object j: the new objects and the log
Moves == kind # "copy"
MadeBy(i, v) == [o |-> IF v = Bomb THEN obj ELSE [obj EXCEPT ![i] = v],
                 log |-> IF v = Bomb THEN <<<<"throw", i, 0>>>> ELSE <<<<"args", i, 0>>>>]
Copied(i, j) == IF obj[j] = Bomb THEN [o |-> obj, log |-> <<<<"throw", i, j>>>>]
                ELSE [o |-> [obj EXCEPT ![i] = obj[j]], log |-> <<<<"copy", i, j>>>>]
Moved(i, j) == IF Moves THEN [o |-> [obj EXCEPT ![i] = obj[j], ![j] = 0], log |-> <<<<"move", i, j>>>>]
               ELSE Copied(i, j)
AssignedC(i, j) == IF obj[j] = Bomb THEN [o |-> obj, log |-> <<<<"throw", i, j>>>>]
                   ELSE [o |-> [obj EXCEPT ![i] = obj[j]], log |-> <<<<"cassign", i, j>>>>]
\* the objects survive being assigned to themselves
AssignedM(i, j) == IF ~Moves THEN AssignedC(i, j)
                   ELSE [o |-> IF i = j THEN obj ELSE [obj EXCEPT ![i] = obj[j], ![j] = 0], log |-> <<<<"massign", i, j>>>>]
Destroyed(i) == [o |-> [obj EXCEPT ![i] = None], log |-> <<<<"dtor", i, 0>>>>]
\* std::swap: a third object comes and goes, at no holder of ours (0)
Swapped(i, j) == IF Moves THEN [o |-> IF i = j THEN obj ELSE [obj EXCEPT ![i] = obj[j], ![j] = obj[i]],
                                log |-> <<<<"move", 0, i>>, <<"massign", i, j>>, <<"massign", j, 0>>, <<"dtor", 0, 0>>>>]
                 ELSE [o |-> [obj EXCEPT ![i] = obj[j], ![j] = obj[i]],
                       log |-> <<<<"copy", 0, i>>, <<"cassign", i, j>>, <<"cassign", j, 0>>, <<"dtor", 0, 0>>>>]
(* ---------------------------------------------------------- bounded model *)
Slots == 1..MSlots
Do(r, o) == obj' = r.o /\ log' = r.log /\ op' = o /\ UNCHANGED kind
Init == kind = MKind /\ obj = [i \in Slots |-> None] /\ log = <<>> /\ op = [e |-> "init"]
Make == \E i \in Slots, v \in MVals : obj[i] = None /\ Do(MadeBy(i, v), [e |-> "make", i |-> i, v |-> v])
Copy == \E i, j \in Slots : kind # "move" /\ obj[i] = None /\ obj[j] # None /\ Do(Copied(i, j), [e |-> "copy", i |-> i, j |-> j])
Move == \E i, j \in Slots : obj[i] = None /\ obj[j] # None /\ Do(Moved(i, j), [e |-> "move", i |-> i, j |-> j])
Cas == \E i, j \in Slots : kind # "move" /\ obj[i] # None /\ obj[j] # None /\ Do(AssignedC(i, j), [e |-> "cassign", i |-> i, j |-> j])
Mas == \E i, j \in Slots : obj[i] # None /\ obj[j] # None /\ Do(AssignedM(i, j), [e |-> "massign", i |-> i, j |-> j])
Set == \E i \in Slots, v \in MVals : obj[i] \notin {None, v} /\ Do([o |-> [obj EXCEPT ![i] = v], log |-> <<>>], [e |-> "set", i |-> i, v |-> v])
Swap == \E i, j \in Slots : i # j /\ obj[i] \notin {None, Bomb} /\ obj[j] \notin {None, Bomb} /\ Do(Swapped(i, j), [e |-> "swap", i |-> i, j |-> j])
Drop == \E i \in Slots : obj[i] # None /\ Do(Destroyed(i), [e |-> "drop", i |-> i])
Next == Make \/ Copy \/ Move \/ Cas \/ Mas \/ Set \/ Swap \/ Drop
Spec == Init /\ [][Next]_hvars
View == <<kind, obj>>
Emit == PrintT("EDGE " \o ToJson(<<obj, op', obj'>>))
\* ------- properties
Births(g) == Cardinality({k \in 1..Len(g) : g[k][1] \in {"args", "copy", "move"} /\ g[k][2] # 0})
Deaths(g) == Cardinality({k \in 1..Len(g) : g[k][1] = "dtor" /\ g[k][2] # 0})
\* as many objects begin and end as holders do
OneEach == [][Cardinality(Live(obj')) = Cardinality(Live(obj)) + Births(log') - Deaths(log')]_hvars
\* an operation touches the holders it names and no other
Separate == [][\A k \in DOMAIN obj : obj'[k] # obj[k] =>
                 k = op'.i \/ ("j" \in DOMAIN op' /\ op'.j = k /\ op'.e \in {"move", "massign", "swap"})]_hvars
\* a copy equals its source and leaves it alone; a failed operation changes nothing
Copies == [][op'.e \in {"copy", "cassign"} => obj'[op'.j] = obj[op'.j] \/ op'.i = op'.j]_hvars
Equal == [][op'.e \in {"copy", "cassign"} /\ obj[op'.j] # Bomb => obj'[op'.i] = obj[op'.j]]_hvars
Failed == [][(Len(log') > 0 /\ log'[1][1] = "throw") => obj' = obj]_hvars
=============================================================================
