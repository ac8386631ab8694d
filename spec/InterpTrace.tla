---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp, TraceBase
VARIABLES i, tab, m
Init == i = 0 /\ tab = [x |-> <<>>, y |-> <<>>] /\ m = LINEAR
Next == /\ i < Len(Trace) /\ i' = i + 1
        /\ LET e == Trace[i'] IN
           CASE e.op = "new" -> tab' = (IF e.null THEN [x |-> <<>>, y |-> <<>>] ELSE [x |-> e.x, y |-> e.y]) /\ m' = LINEAR
             [] e.op = "data" -> /\ e.ok = (~e.null /\ Len(e.x) >= 4)
                                 /\ tab' = IF e.ok THEN [x |-> e.x, y |-> e.y] ELSE tab
                                 /\ UNCHANGED m
             [] e.op = "method" -> e.ok = (e.m \in 0..8) /\ m' = (IF e.ok THEN e.m ELSE m) /\ UNCHANGED tab
             [] e.op = "get" -> Admissible(m, tab.x, tab.y, e.x, e.y) /\ UNCHANGED <<tab, m>>
Spec == Init /\ [][Next]_<<i, tab, m>>
=============================================================================
