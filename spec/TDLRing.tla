------------------------------ MODULE TDLRing ------------------------------
(* The circular-buffer design (a read and a write cursor over a fixed area)  *)
(* refines TDL: index arithmetic of every tap is checked for every cursor    *)
(* position.  Cells and cursors are 0-based.                                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NMax, Vals
VARIABLES n, cell, rd, wr
vars == <<n, cell, rd, wr>>

Init == /\ n \in 1..NMax /\ cell = [k \in 0..(n - 1) |-> "0"] /\ wr = 0 /\ rd = n - 1
Insert(v) == /\ rd' = (rd + 1) % n
             /\ cell' = [cell EXCEPT ![wr] = v]
             /\ wr' = (wr + 1) % n
             /\ UNCHANGED n
Flush(v) == rd' = n - 1 /\ wr' = 0 /\ cell' = [k \in 0..(n - 1) |-> v] /\ UNCHANGED n
Next == \E v \in Vals : Insert(v) \/ Flush(v)
Spec == Init /\ [][Next]_vars

\* the tap the design reads for delay i, and the proof that it is inside the area
TapIdx(i) == IF wr > rd /\ i >= wr THEN rd + n - i ELSE rd - i
InArea == \A i \in 0..(n - 1) : TapIdx(i) \in 0..(n - 1)
OldestIdx == IF rd + 1 >= n THEN 0 ELSE rd + 1
OldestIsLastTap == OldestIdx = TapIdx(n - 1)
Abs == [k \in 1..n |-> cell[TapIdx(k - 1)]]
T == INSTANCE TDL WITH q <- Abs
Refines == [][\E v \in Vals : T!Insert(v) \/ T!Flush(v)]_Abs
=============================================================================
