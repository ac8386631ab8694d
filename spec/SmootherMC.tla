----------------------------- MODULE SmootherMC -----------------------------
(* All filters in lock step on every short input history over a small        *)
(* alphabet, with resets: the laws users rely on, and the histories to be    *)
(* replayed in the real filters.                                             *)
EXTENDS Smoother, Json, Integers
CONSTANTS Vals, LMax
P(n, a, b, c) == [n |-> n, a |-> a, b |-> b, c |-> c, win |-> TRUE, wgt |-> TRUE, w1 |-> TRUE]
Cfg == [lpf1 |-> P(0, "0.75", "0", "0"), lpf2 |-> P(0, "0.5", "0", "0"), expw |-> P(0, "0.5", "0", "0"),
        klmn |-> P(0, "0.5", "2", "4"), desf |-> P(3, "0.25", "0.5", "0"), alnf |-> P(3, "0.0625", "0.25", "0"),
        mwm1 |-> P(3, "0", "0", "0"), mwm2 |-> P(3, "0", "0", "0"), mor1 |-> P(3, "0.5", "0", "0"), mor2 |-> P(3, "0.5", "0", "0"),
        gmwf |-> P(3, "1", "1", "0")]
Kinds == DOMAIN Cfg
VARIABLES f, y, xs, hist
vars == <<f, y, xs, hist>>
Init == f = [k \in Kinds |-> Configured(k, Cfg[k])] /\ y = [k \in Kinds |-> "0"] /\ xs = <<>> /\ hist = <<>>
Feed(x) == /\ y' = [k \in Kinds |-> CHOOSE v \in Ideal(f[k], x, "0") : TRUE]
           /\ f' = [k \in Kinds |-> After(f[k], x, y'[k])]
           /\ xs' = Append(xs, x) /\ hist' = Append(hist, "x " \o x)
Reset == xs # <<>> /\ f' = [k \in Kinds |-> ResetOf(f[k])] /\ xs' = <<>> /\ hist' = Append(hist, "reset") /\ UNCHANGED y
Next == Len(hist) < LMax /\ ((\E x \in Vals : Feed(x)) \/ Reset)
Spec == Init /\ [][Next]_vars
Const == \A j \in 1..Len(xs) : NEq(xs[j], xs[1])
Lo == NMinSeq(xs)
Hi == NMaxSeq(xs)
\* a constant signal passes unchanged (the forecaster adds its decaying initial trend)
UnitGain == (xs # <<>> /\ Const) => \A k \in Kinds \ {"desf"} : NNear(y[k], xs[1], NPow2(-90))
\* averages stay inside the range of what they average
Convex == xs # <<>> => \A k \in {"lpf1", "expw", "klmn", "mwm1", "mwm2", "mor1", "mor2", "gmwf"} :
                         NLe(NSub(Lo, NPow2(-90)), y[k]) /\ NLe(y[k], NAdd(Hi, NPow2(-90)))
\* the O(1) variants are the O(n) variants
Twins == y["mwm1"] = y["mwm2"] /\ y["mor1"] = y["mor2"]
\* a window filter depends on the last n samples only
Finite == Len(xs) >= 3 => NEq(y["mwm1"], Mean(SubSeq(xs, Len(xs) - 2, Len(xs))))
Deterministic == \A k \in Kinds : \A x \in Vals : Ideal(f[k], x, "0") # {} 
Emit == Len(hist) = LMax => PrintT("HIST " \o ToJson(hist))
=============================================================================
