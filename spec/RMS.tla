-------------------------------- MODULE RMS --------------------------------
(***************************************************************************)
(* Recursive RMS estimator: exponentially weighted mean of the squares      *)
(* (forgetting factor lambda), square root, moving mean over n samples,     *)
(* first order low pass (alpha).  Built from the filter specifications.     *)
(***************************************************************************)
EXTENDS Smoother
Par(n, a) == [n |-> n, a |-> a, b |-> "0", c |-> "0", win |-> TRUE, wgt |-> TRUE, w1 |-> TRUE]
DefaultLambda == "0.99"
DefaultAlpha == "0.75"
Fresh(n) == [e |-> Configured("expw", Par(0, DefaultLambda)), w |-> Configured("mwm2", Par(n, "0")), l |-> Configured("lpf1", Par(0, DefaultAlpha))]
The(S) == CHOOSE v \in S : TRUE
Power(r, x) == NRnd(The(Ideal(r.e, NSq(x), "0")))
Root(r, x) == NSqrt(Power(r, x))
Avg(r, x) == NRnd(The(Ideal(r.w, Root(r, x), "0")))
Estimate(r, x) == The(Ideal(r.l, Avg(r, x), "0"))
Next2(r, x, y) == [e |-> After(r.e, NSq(x), Power(r, x)), w |-> After(r.w, Root(r, x), "0"), l |-> After(r.l, Avg(r, x), y)]
Tuned(r, lam, al) == [r EXCEPT !.e.par.a = lam, !.l.par.a = al]
=============================================================================
