----------------------------- MODULE NumaTrace -----------------------------
EXTENDS Numa, TraceBase
VARIABLES i, sick
\* sick: a sample that is no number (or infinite) has entered the memory; what follows is open until the memory is started anew
Eps == "1/2097152"                           \* four single precision roundings
Tiny == NPow2(-140)
Tol(scale) == NAdd(NMul(Eps, scale), Tiny)
IMeth == {"rect", "trap", "simp", "quad"}
DMeth == {"two", "back", "forw"}
\* the scalar operators act on the current value
Ops(e, x) == /\ NNear(e.add, NAdd(x, e.k), Tol(NAdd(NAbs(x), NAbs(e.k)))) /\ NNear(e.radd, NAdd(x, e.k), Tol(NAdd(NAbs(x), NAbs(e.k))))
             /\ NNear(e.sub, NSub(x, e.k), Tol(NAdd(NAbs(x), NAbs(e.k)))) /\ NNear(e.rsub, NSub(e.k, x), Tol(NAdd(NAbs(x), NAbs(e.k))))
             /\ NNear(e.mul, NMul(x, e.k), Tol(NAbs(NMul(x, e.k)))) /\ NNear(e.rmul, NMul(x, e.k), Tol(NAbs(NMul(x, e.k))))
             /\ NNear(e.div, NDiv(x, e.k), Tol(NAbs(NDiv(x, e.k))))
             /\ IF NEq(x, "0") THEN TRUE ELSE NNear(e.rdiv, NDiv(e.k, x), Tol(NAbs(NDiv(e.k, x))))
Step(e) ==
  \/ e.op = "new" /\ st' = Fresh(e.x, e.p, e.r)
  \/ e.op = "init" /\ Init3(e.x, e.p, e.r)
  \/ e.op = "im" /\ e.m \in IMeth /\ st' = [st EXCEPT !.im = e.m]
  \/ e.op = "dm" /\ e.m \in DMeth /\ st' = [st EXCEPT !.dm = e.m]
  \/ /\ e.op = "int" /\ IsNum(e.y)
     /\ LET inc == NMul(IntRule(st.im, e.s, st.p, st.r), e.dt)
        IN NNear(e.y, NAdd(st.x, inc), Tol(NAdd(NAbs(st.x), NMul("4", NAbs(NMul(Mag(e.s, st.p, st.r), e.dt))))))
     /\ Integrate(e.s, e.dt, e.upd, e.y)
  \/ /\ e.op = "der" /\ IsNum(e.y)
     /\ NNear(e.y, NDiv(DerRule(st.dm, e.s, st.p, st.r), e.dt), Tol(NDiv(NMul("4", Mag(e.s, st.p, st.r)), NAbs(e.dt))))
     /\ Derive(e.s, e.dt, e.upd)
  \/ e.op = "ops" /\ UNCHANGED st /\ Ops(e, st.x)
Open(e) == (e.op \in {"int", "der"} /\ (sick \/ ~IsNum(e.s))) \/ (e.op = "ops" /\ sick)
Init == i = 0 /\ sick = FALSE /\ st = Fresh("0", "0", "0")
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           /\ sick' = IF e.op \in {"new", "init"} THEN FALSE ELSE (sick \/ Open(e))
           /\ IF Open(e) THEN UNCHANGED st ELSE Step(e) /\ (sick' \/ NEq(e.val, st'.x))
Spec == Init /\ [][Next]_<<st, i, sick>>
=============================================================================
