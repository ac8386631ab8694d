------------------------------ MODULE MatTrace ------------------------------
(* Registers of the driver: A, B are n x m; P is m x n; Q is m x m; S, T n x n.*)
(* Every event carries all registers after the operation; the operation must   *)
(* have produced the specified matrix and left the other registers alone.      *)
EXTENDS Mat, TraceBase
VARIABLES i, R
vars == <<i, R>>
Eps == "1/2097152"                      \* 2^-21
Regs(e) == [A |-> M(e.n, e.m, e.A), B |-> M(e.n, e.m, e.B), P |-> M(e.m, e.n, e.P), Q |-> M(e.m, e.m, e.Q), S |-> M(e.n, e.n, e.S), T |-> M(e.n, e.n, e.T)]
Names == {"A", "B", "P", "Q", "S", "T"}
NumM(X) == \A q \in DOMAIN X.e : IsNum(X.e[q])
(* X is the matrix Y within bound[q] per element *)
NearM(X, Y, bound(_)) == NumM(X) /\ X.r = Y.r /\ X.c = Y.c /\ \A q \in DOMAIN Y.e : NLe(NAbs(NSub(X.e[q], Y.e[q])), NAdd(bound(q), NPow2(-140)))
EqM(X, Y) == X.r = Y.r /\ X.c = Y.c /\ \A q \in DOMAIN Y.e : X.e[q] = Y.e[q] \/ (IsNum(X.e[q]) /\ IsNum(Y.e[q]) /\ NEq(X.e[q], Y.e[q]))
Close(X, Y) == LET b(q) == NMul(Eps, NAbs(Y.e[q])) IN NearM(X, Y, b)
(* cancellation: the rounding error is relative to the operands *)
CloseTo(X, Y, mag) == LET b(q) == NMul(Eps, mag.e[q]) IN NearM(X, Y, b)
Frame(N, O, changed) == \A r \in Names \ changed : N[r] = O[r]
(* a sum of k terms has k roundings *)
EpsK(k) == NMax(Eps, NMul(NOf(k + 4), NPow2(-24)))
Prod(X, F, G) == LET mag == MMul(MAbs(F), MAbs(G)) b(q) == NMul(EpsK(F.c), mag.e[q]) IN NearM(X, MMul(F, G), b)
Kappa(X, I) == NMul(NormInf(X), NormInf(I))
InvOk(X, F) == LET I == Inv(F)
                   b(q) == NMul(NMul("1/65536", Kappa(F, I)), NormInf(I))
               IN NearM(X, I, b)
(* large matrices: the defining equations X F = F X = 1 instead of the cofactors *)
Unit2(X, F) == LET p == MMul(X, F) b(q) == NMul("1/65536", Kappa(F, X)) IN NumM(X) /\ NearM(p, MId(F.r, "1"), b)
Inverse(X, F) == IF F.r > 5 THEN NumM(X) /\ Unit2(X, F) /\ Unit2(F, X)
                 ELSE IF NSgn(Det(F)) = 0 THEN TRUE ELSE InvOk(X, F)
Ok(e, O, N) ==
  LET s == e.s
      A == O.A B == O.B
      c(set) == Frame(N, O, set)
      asum == MAdd(MAbs(A), MAbs(B))
      asca == MAddS(MAbs(A), NAbs(s))
  IN CASE e.op \in {"add", "addAssign"} -> CloseTo(N.A, MAdd(A, B), asum) /\ c({"A"})
       [] e.op \in {"addSelf", "addAA"} -> Close(N.A, MAdd(A, A)) /\ c({"A"})
       [] e.op \in {"sub", "subAssign"} -> CloseTo(N.A, MSub(A, B), asum) /\ c({"A"})
       [] e.op \in {"subSelf", "subAA"} -> EqM(N.A, MAll(e.n, e.m, "0")) /\ c({"A"})
       [] e.op \in {"mulS", "rmulS", "mulAssignS"} -> Close(N.A, MScale(A, s)) /\ c({"A"})
       [] e.op \in {"divS", "divAssignS"} -> Close(N.A, MScale(A, NDiv("1", s))) /\ c({"A"})
       [] e.op \in {"addS", "raddS", "addAssignS"} -> CloseTo(N.A, MAddS(A, s), asca) /\ c({"A"})
       [] e.op \in {"subS", "subAssignS"} -> CloseTo(N.A, MAddS(A, NNeg(s)), asca) /\ c({"A"})
       [] e.op = "rsubS" -> CloseTo(N.A, MAddS(MNeg(A), s), asca) /\ c({"A"})
       [] e.op = "neg" -> EqM(N.A, MNeg(A)) /\ c({"A"})
       [] e.op \in {"preInc", "postInc"} -> LET mg == MAddS(MAbs(A), "1") IN
            CloseTo(N.A, MAddS(A, "1"), mg) /\ N.B = (IF e.op = "preInc" THEN N.A ELSE A) /\ c({"A", "B"})
       [] e.op \in {"preDec", "postDec"} -> LET mg == MAddS(MAbs(A), "1") IN
            CloseTo(N.A, MAddS(A, "-1"), mg) /\ N.B = (IF e.op = "preDec" THEN N.A ELSE A) /\ c({"A", "B"})
       [] e.op = "trans" -> N.P = MTrans(A) /\ c({"P"})
       [] e.op = "mulAP" -> Prod(N.S, A, O.P) /\ c({"S"})
       [] e.op = "mulPA" -> Prod(N.Q, O.P, A) /\ c({"Q"})
       [] e.op = "mulSA" -> Prod(N.A, O.S, A) /\ c({"A"})
       [] e.op = "mulST" -> Prod(N.S, O.S, O.T) /\ c({"S"})
       [] e.op = "mulAssignAQ" -> Prod(N.A, A, O.Q) /\ c({"A"})
       [] e.op = "mulAssignST" -> Prod(N.S, O.S, O.T) /\ c({"S"})
       [] e.op \in {"mulAssignSS", "mulSS"} -> Prod(N.S, O.S, O.S) /\ c({"S"})
       [] e.op = "inv" -> Inverse(N.S, O.T) /\ c({"S"})
       [] e.op = "invT" -> Inverse(N.T, O.T) /\ c({"T"})
       [] e.op = "show" -> /\ e.rows = e.n /\ e.rect /\ c({})     \* one line per row, in order, six significant digits
                           /\ LET b(q) == NMul("1/100000", NAbs(A.e[q])) IN NearM(M(e.n, e.m, e.v), A, b)
       [] e.op = "id" -> EqM(N.S, MId(e.n, s)) /\ c({"S"})
       [] e.op = "idDef" -> EqM(N.S, MId(e.n, "1")) /\ c({"S"})
       [] e.op = "all" -> EqM(N.S, MAll(e.n, e.n, s)) /\ c({"S"})
       [] e.op = "zero" -> EqM(N.S, MAll(e.n, e.n, "0")) /\ c({"S"})
       [] e.op = "default" -> EqM(N.A, MAll(e.n, e.m, "0")) /\ c({"A"})
       [] e.op \in {"copyCtor", "asg"} -> N.A = B /\ c({"A"})
       [] e.op = "asgSelf" -> c({})
       [] e.op = "loadST" -> N.S = A /\ N.T = B /\ c({"S", "T"})
       [] e.op = "loadTA" -> N.T = A /\ c({"T"})
       [] e.op = "storeA" -> N.A = O.S /\ c({"A"})
       [] e.op = "storeB" -> N.B = O.S /\ c({"B"})
       [] e.op = "loadB" -> N.B = O.P /\ c({"B"})
       [] e.op = "ST" -> N.S = O.T /\ N.T = O.S /\ c({"S", "T"})
       [] e.op \in {"setRC", "setIdx", "setBr"} -> N.A = M(e.n, e.m, [A.e EXCEPT ![e.q + 1] = s]) /\ c({"A"})
       [] e.op = "get" -> e.rc = A.e[e.q + 1] /\ e.idx = A.e[e.q + 1] /\ e.cidx = A.e[e.q + 1] /\ e.br = A.e[e.q + 1] /\ e.cbr = A.e[e.q + 1] /\ c({})
       [] e.op = "norm" -> IsNum(e.y) /\ NLe(NAbs(NSub(e.y, NormInf(A))), NMul(EpsK(A.c), NormInf(A))) /\ c({})
       [] e.op = "setT" -> N.T.e = e.v /\ c({"T"})
       [] e.op = "setA" -> N.A.e = e.v /\ c({"A"})
       [] e.op = "setB" -> N.B.e = e.v /\ c({"B"})
Init == i = 0 /\ R = <<>>
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           /\ R' = Regs(e)
           /\ e.op = "new" \/ Ok(e, R, R')
Spec == Init /\ [][Next]_vars
=============================================================================
