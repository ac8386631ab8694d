---------------------------- MODULE TransportMC ----------------------------
(* Reading the oldest tap of a delay line with N+1 taps is the queue of N.    *)
EXTENDS Transport, TLC, Json
CONSTANTS Vals, NMax2, LMax
VARIABLES n, q, line, out, tap, ins, hist
vars == <<n, q, line, out, tap, ins, hist>>
Init == n \in 1..NMax2 /\ q = Start(n, "0.5") /\ line = Start(n + 1, "0.5") /\ out = "0.5" /\ tap = "0.5" /\ ins = <<>> /\ hist = <<"new " \o ToString(n) \o " 0.5">>
Next == Len(ins) < LMax /\ \E x \in Vals :
          /\ out' = Out(q) /\ q' = In(q, x)
          /\ line' = In(line, x) /\ tap' = Out(In(line, x))
          /\ ins' = Append(ins, x) /\ hist' = Append(hist, "x " \o x) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Refines == tap = out
Shift == LET k == Len(ins) IN k > 0 => out = IF k > n THEN ins[k - n] ELSE "0.5"
Emit == Len(ins) = LMax => PrintT("HIST " \o ToJson(hist))
=============================================================================
