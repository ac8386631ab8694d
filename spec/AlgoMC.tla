------------------------------- MODULE AlgoMC -------------------------------
(* The sort as the state machine a non recursive quick sort is: a bounded     *)
(* stack of pending ranges, one partition step at a time. Checked for every    *)
(* array in the bound: nothing is lost, the stack never needs more than N      *)
(* entries (it silently drops beyond), it terminates sorted. The rotation is   *)
(* checked to be its three reversals. Every (array, order, range) is replayed.  *)
EXTENDS Algo, TLC, Json
CONSTANTS N, V
VARIABLES a0, a, st, cmp, f, l, pc, i, p, lo, hi
vars == <<a0, a, st, cmp, f, l, pc, i, p, lo, hi>>
Init == /\ a0 \in [1..N -> 0..V] /\ a = a0 /\ cmp \in {0, 2, 3}
        /\ f \in 1..N /\ l \in f..N
        /\ st = <<<<f, l>>>> /\ pc = "pop" /\ i = 0 /\ p = 0 /\ lo = 0 /\ hi = 0
Pop == /\ pc = "pop" /\ st /= <<>>
       /\ lo' = st[Len(st)][1] /\ hi' = st[Len(st)][2] /\ st' = SubSeq(st, 1, Len(st) - 1)
       /\ i' = lo' /\ p' = lo' /\ pc' = "scan" /\ UNCHANGED <<a0, a, cmp, f, l>>
Scan == /\ pc = "scan" /\ i < hi
        /\ IF Before(cmp, a[i], a[hi]) THEN a' = Swapped(a, i, p) /\ p' = p + 1 ELSE UNCHANGED <<a, p>>
        /\ i' = i + 1 /\ UNCHANGED <<a0, st, cmp, f, l, pc, lo, hi>>
Place == /\ pc = "scan" /\ i = hi
         /\ a' = Swapped(a, p, hi)
         /\ st' = LET s1 == IF p - 1 > lo THEN Append(st, <<lo, p - 1>>) ELSE st
                  IN IF p + 1 < hi THEN Append(s1, <<p + 1, hi>>) ELSE s1
         /\ pc' = "pop" /\ UNCHANGED <<a0, cmp, f, l, i, p, lo, hi>>
Done == pc = "pop" /\ st = <<>>
Next == Pop \/ Scan \/ Place \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Pop \/ Scan \/ Place)
NothingLost == Permutation(a0, a) /\ Outside(a0, a, f, l)
StackBounded == Len(st) <= N
(* ranges on the stack are disjoint and everything not pending is in place relative to them *)
Partitioned == pc = "scan" => /\ \A j \in lo..(p - 1) : Before(cmp, a[j], a[hi])
                              /\ \A j \in p..(i - 1) : ~Before(cmp, a[j], a[hi])
Separated == pc = "pop" => \A k \in DOMAIN st : \A x \in st[k][1]..st[k][2] :
                 /\ \A y \in f..(st[k][1] - 1) : ~Before(cmp, a[x], a[y])
                 /\ \A y \in (st[k][2] + 1)..l : ~Before(cmp, a[y], a[x])
SortedAtEnd == Done => SortedOK(cmp, a0, a, f, l)
Terminates == <>Done
RotationLaw == pc = "pop" /\ a = a0 => \A r \in 0..(N - 1) :
                 LET r1 == IF r = 0 THEN a ELSE Reversed(a, N - r + 1, N)
                     r2 == Reversed(r1, 1, N - r)
                 IN Reversed(r2, 1, N) = Rotated(a, r)
Emit == Done => PrintT("HIST " \o ToJson([a |-> a0, c |-> cmp, f |-> f, l |-> l]))
=============================================================================
