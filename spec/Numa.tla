-------------------------------- MODULE Numa --------------------------------
(***************************************************************************)
(* Numerical state: an accumulator and the last two samples.  Every rule is *)
(* a fixed linear combination of the samples; rationals are Num strings.    *)
(***************************************************************************)
EXTENDS NumaRules

VARIABLE st      \* [x, p, r, im, dm]: value, previous samples, integration and derivation method
Fresh(x, p, r) == [x |-> x, p |-> p, r |-> r, im |-> "trap", dm |-> "two"]
Pushed(s, upd) == IF upd THEN [st EXCEPT !.p = s, !.r = st.p] ELSE st
\* y is the value returned, which becomes the value of the state
Integrate(s, dt, upd, y) == st' = [Pushed(s, upd) EXCEPT !.x = y]
Derive(s, dt, upd)       == st' = Pushed(s, upd)
Init3(x, p, r)           == st' = [st EXCEPT !.x = x, !.p = p, !.r = r]
=============================================================================
