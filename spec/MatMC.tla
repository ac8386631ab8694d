------------------------------- MODULE MatMC --------------------------------
(* Laws of the matrix algebra on every pair of 2x2 matrices over a small set  *)
(* and, with the same operators, a register machine whose histories of        *)
(* operations are replayed on the real class.                                  *)
EXTENDS Mat, TLC, Json, FiniteSets
CONSTANTS DEPTH
Vals == {"-1", "0", "2"}
Mats == {M(2, 2, <<a, b, c, d>>) : a, b, c, d \in Vals}
VARIABLES A, B, h, s0
vars == <<A, B, h, s0>>
Ops == {"add", "sub", "subAssign", "addAssign", "neg", "mulS", "mulAssign", "mul", "trans", "preInc", "postInc", "preDec", "postDec", "inv", "subS", "rsubS", "asg"}
Sing(X) == NSgn(Det(X)) = 0
One(X) == MAddS(X, "1")
Less(X) == MAddS(X, "-1")
Eff(op, X, Y) == \* new A and new B
  CASE op = "add" -> <<MAdd(X, Y), Y>> [] op = "addAssign" -> <<MAdd(X, Y), Y>>
    [] op = "sub" -> <<MSub(X, Y), Y>> [] op = "subAssign" -> <<MSub(X, Y), Y>>
    [] op = "neg" -> <<MNeg(X), Y>> [] op = "mulS" -> <<MScale(X, "2"), Y>>
    [] op \in {"mul", "mulAssign"} -> <<MMul(X, Y), Y>>
    [] op = "trans" -> <<X, MTrans(X)>>
    [] op = "preInc" -> <<One(X), One(X)>> [] op = "postInc" -> <<One(X), X>>
    [] op = "preDec" -> <<Less(X), Less(X)>> [] op = "postDec" -> <<Less(X), X>>
    [] op = "inv" -> <<X, Inv(X)>> [] op = "subS" -> <<Less(X), Y>>
    [] op = "rsubS" -> <<MAddS(MNeg(X), "1"), Y>> [] op = "asg" -> <<Y, Y>>
Start == {<<M(2, 2, <<"0", "2", "-1", "0">>), M(2, 2, <<"2", "0", "0", "-1">>)>>, <<M(2, 2, <<"2", "-1", "2", "2">>), M(2, 2, <<"-1", "2", "0", "2">>)>>}
Init == \/ (h = <<>> /\ s0 \in Start /\ A = s0[1] /\ B = s0[2])
        \/ (h = <<"law">> /\ s0 = <<>> /\ A \in Mats /\ B \in Mats)
Next == /\ Len(h) < DEPTH /\ h /= <<"law">>
        /\ \E op \in Ops : /\ op = "inv" => ~Sing(A)
                           /\ LET e == Eff(op, A, B) IN A' = e[1] /\ B' = e[2]
                           /\ h' = Append(h, op) /\ UNCHANGED s0
Spec == Init /\ [][Next]_vars
Laws == h = <<"law">> =>
  LET AB == MMul(A, B) IN
  /\ MTrans(AB) = MMul(MTrans(B), MTrans(A))
  /\ MTrans(MTrans(A)) = A
  /\ MMul(A, MAdd(B, A)) = MAdd(AB, MMul(A, A))
  /\ Det(AB) = NMul(Det(A), Det(B))
  /\ NLe(NormInf(AB), NMul(NormInf(A), NormInf(B))) /\ NLe(NormInf(MAdd(A, B)), NAdd(NormInf(A), NormInf(B)))
  /\ ~Sing(A) => (MMul(A, Inv(A)) = MId(2, "1") /\ MMul(Inv(A), A) = MId(2, "1"))
  /\ (~Sing(A) /\ ~Sing(B)) => Inv(AB) = MMul(Inv(B), Inv(A))
Emit == (Len(h) = DEPTH /\ h /= <<"law">>) => PrintT("HIST " \o ToJson([h |-> h, a |-> s0[1].e, b |-> s0[2].e]))
=============================================================================
