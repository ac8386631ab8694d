------------------------------- MODULE TDLMC -------------------------------
(* Exhaustive check of TDL: the window is at all times the last N samples of *)
(* the complete insertion history, and emits every history for replay.       *)
EXTENDS TDL, TLC, Json
CONSTANTS NMax, Vals, LMax
VARIABLES n, fill, ins, hist
vars == <<q, n, fill, ins, hist>>

Init == /\ n \in 1..NMax /\ fill = "0" /\ ins = <<>>
        /\ q = Fill(n, "0")
        /\ hist = <<"new " \o ToString(n) \o " 0">>
DoIns(v) == Insert(v) /\ ins' = Append(ins, v) /\ hist' = Append(hist, "ins " \o v) /\ UNCHANGED <<n, fill>>
DoFlush(v) == Flush(v) /\ ins' = <<>> /\ fill' = v /\ hist' = Append(hist, "flush " \o v) /\ UNCHANGED n
Next == Len(hist) <= LMax /\ \/ \E v \in Vals : DoIns(v)
                             \/ DoFlush("9")
Spec == Init /\ [][Next]_vars

\* C01 on the model
WindowIsHistory == /\ Len(q) = n
                   /\ \A k \in 0..(n - 1) : At(k) = IF k < Len(ins) THEN ins[Len(ins) - k] ELSE fill
                   /\ Recent = At(0) /\ Oldest = At(n - 1)
\* every complete history is printed once, to be replayed in the real code
Emit == Len(hist) = LMax + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
