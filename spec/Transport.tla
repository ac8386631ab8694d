----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* Transport delay of N samples: a queue that always holds the N samples in *)
(* transit, newest first.  Each step admits one sample and delivers one.    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Start(n, v) == [k \in 1..n |-> v]
Out(q) == q[Len(q)]
In(q, x) == <<x>> \o SubSeq(q, 1, Len(q) - 1)
\* m steps with inputs v(1), ..., v(m): the output of the j-th, and the queue afterwards
OutAt(q, v(_), j) == IF j > Len(q) THEN v(j - Len(q)) ELSE q[Len(q) + 1 - j]
InAll(q, v(_), m) == [k \in 1..Len(q) |-> IF k <= m THEN v(m + 1 - k) ELSE q[k - m]]
\* number of steps of length dt in a time T, to the nearest: the quotient is formed in single precision,
\* so a quotient within u of a midpoint may go either way
Steps(T, dt) == LET e == NDiv(T, dt) u == NMul(NPow2(-22), NMax("1", e))
                IN {NFloor(NAdd(NSub(e, u), "1/2")), NFloor(NAdd(e, "1/2")), NFloor(NAdd(NAdd(e, u), "1/2"))}
=============================================================================
