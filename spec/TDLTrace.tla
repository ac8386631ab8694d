------------------------------ MODULE TDLTrace ------------------------------
(* Accepts a recorded run of the real tapped delay line iff every event is a *)
(* TDL step whose observations (all taps, oldest, recent, subscripts) are    *)
(* those of the specification.                                               *)
EXTENDS TDL, Num, TraceBase
VARIABLE i
Same(a, b) == IF IsNum(a) /\ IsNum(b) THEN NEq(a, b) ELSE a = b
Seen(e, w) == \* the complete observation of window w carried by event e
  /\ Len(w) <= 600 => e.ix = [k \in 1..Len(w) |-> k - 1]        \* long lines are observed at some taps
  /\ Len(e.taps) = Len(e.ix) /\ \A k \in 1..Len(e.ix) : Same(e.taps[k], w[e.ix[k] + 1]) /\ Same(e.sub[k], w[e.ix[k] + 1])
  /\ Same(e.oldest, w[Len(w)]) /\ Same(e.recent, w[1]) /\ Same(e.subm1, w[Len(w)])
  /\ e.subn = "nan" /\ e.subm2 = "nan"
  /\ e.init
Init == i = 0 /\ q = <<>>
Step(e) == \/ e.op = "new" /\ Setup(e.n, e.x)
           \/ e.op = "ins" /\ Insert(e.x)
           \/ e.op = "burst" /\ LET v(k) == NOf(e.s + k - 1) IN Burst(e.m, v)
           \/ e.op = "flush" /\ Flush(e.x)
           \/ e.op = "blank" /\ e.init = FALSE /\ q' = <<>>
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i'] IN Step(e) /\ (e.op # "blank" => Seen(e, q'))
Spec == Init /\ [][Next]_<<q, i>>
=============================================================================
