------------------------------ MODULE NumaMC ------------------------------
(* The rules on every small polynomial signal: consistency and order.        *)
EXTENDS Numa, TLC, Integers
CONSTANTS C, T            \* coefficient range, number of steps
VARIABLES c0, c1, c2, t, acc
vars == <<st, c0, c1, c2, t, acc>>
S(k) == NOf(c0 + c1 * k + c2 * k * k)
\* exact integral over [0,t] of the polynomial
Exact(k) == NSum(<<NOf(c0 * k), NDiv(NOf(c1 * k * k), "2"), NDiv(NOf(c2 * k * k * k), "3")>>)
Init == /\ c0 \in -C..C /\ c1 \in -C..C /\ c2 \in -C..C /\ t = 0
        /\ st = Fresh("0", S(0), S(-1)) /\ acc = [m \in {"rect", "trap", "simp", "quad"} |-> "0"]
Next == /\ t < T /\ t' = t + 1 /\ UNCHANGED <<c0, c1, c2>>
        /\ acc' = [m \in DOMAIN acc |-> NAdd(acc[m], IntRule(m, S(t + 1), st.p, st.r))]
        /\ Integrate(S(t + 1), "1", TRUE, acc'["trap"])
Spec == Init /\ [][Next]_vars
\* constants are integrated exactly by all rules, lines by trap and quad, parabolas by quad
Orders == /\ (c1 = 0 /\ c2 = 0) => \A m \in DOMAIN acc : acc[m] = Exact(t)
          /\ c2 = 0 => acc["trap"] = Exact(t)
          /\ acc["quad"] = Exact(t)
\* Simpson's weights are the trapezoidal rule delayed: equal to the mean of the two half-step rules
SimpBetween == c2 = 0 => acc["simp"] = NSub(Exact(t), NDiv(NOf(c1 * t), "2"))
Derivs == t >= 1 =>
          LET s == S(t + 1) p == st.p r == st.r IN
          /\ (c2 = 0) => DerRule("two", s, p, r) = NOf(c1)
          /\ DerRule("back", s, p, r) = NOf(c1 + 2 * c2 * (t + 1))       \* slope now
          /\ DerRule("forw", s, p, r) = NOf(c1 + 2 * c2 * (t - 1))       \* slope two samples ago
HistoryIsLastTwo == st.p = S(t) /\ st.r = S(t - 1)
=============================================================================
