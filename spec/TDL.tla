-------------------------------- MODULE TDL --------------------------------
(***************************************************************************)
(* Tapped delay line: a window of exactly N samples, newest first.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLE q          \* the window: q[1] newest ... q[Len(q)] oldest; <<>> before setup

Fill(n, v)   == [k \in 1..n |-> v]
Setup(n, v)  == n >= 1 /\ q' = Fill(n, v)
Flush(v)     == q # <<>> /\ q' = Fill(Len(q), v)
Insert(v)    == q # <<>> /\ q' = <<v>> \o SubSeq(q, 1, Len(q) - 1)
\* m insertions at once: v(1) first, v(m) last
Burst(m, v(_)) == q # <<>> /\ q' = [k \in 1..Len(q) |-> IF k <= m THEN v(m + 1 - k) ELSE q[k - m]]

\* Observers
At(k)        == q[k + 1]            \* the sample k insertions ago
Recent       == q[1]
Oldest       == q[Len(q)]
\* The subscript operator: -1 is the oldest, 0..n-1 the delays, anything else is undefined.
Sub(k)       == IF k \in 0..(Len(q) - 1) THEN At(k) ELSE IF k = -1 THEN Oldest ELSE "nan"
=============================================================================
