------------------------------ MODULE FleetMC ------------------------------
(* All schedules of Slots objects up to length LMax, with delay lines as the *)
(* objects: each one is what its own operations alone make of it.  Emits the *)
(* schedules, in which the real objects of every class are then used.        *)
EXTENDS Fleet, TLC, Json
CONSTANTS Slots, LMax
VARIABLES f, g
Push(q, v) == <<v>> \o SubSeq(q, 1, Len(q) - 1)
Size(s) == s + 1
Fresh(s) == [k \in 1..Size(s) |-> 0]
Init == f = [s \in 0..Slots-1 |-> Fresh(s)] /\ g = <<>>
Next == Len(g) < LMax /\ \E s \in 0..Slots-1 : f' = Step(f, s, LAMBDA q : Push(q, Len(g) + 1)) /\ g' = Append(g, <<s, Len(g) + 1>>)
Spec == Init /\ [][Next]_<<f, g>>
Alone == \A s \in 0..Slots-1 : f[s] = Run(Fresh(s), Own(g, s), LAMBDA q, e : Push(q, e[2]))
\* a step of one slot commutes with a step of another: the order between different objects does not matter
Commute == \A s, t \in 0..Slots-1 : s # t => Step(Step(f, s, LAMBDA q : Push(q, 7)), t, LAMBDA q : Push(q, 8)) = Step(Step(f, t, LAMBDA q : Push(q, 8)), s, LAMBDA q : Push(q, 7))
Emit == Len(g) = LMax => PrintT("HIST " \o ToJson([k \in 1..Len(g) |-> g[k][1]]))
=============================================================================
