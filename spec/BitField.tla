----------------------------- MODULE BitField -----------------------------
(***************************************************************************)
(* A bit field: a fixed-length array of bits, here the sequence bits with   *)
(* bit index k stored at bits[k+1].  Multi-bit items are stored least       *)
(* significant bit first at consecutive indexes; the part of an item that   *)
(* falls beyond the end of the field is not stored and reads as zero.       *)
(* A request is served only when its first bit lies in the field and its    *)
(* width is 1..WMax; otherwise nothing changes and the request fails.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT WMax            \* the widest item (32 in the library)
VARIABLE bits            \* <<>> before a successful setup

Size       == Len(bits)
In(k)      == k >= 0 /\ k < Size
Fill(n, b) == [k \in 1..n |-> b]
Bit(k)     == bits[k + 1]
Put(k, b)  == [bits EXCEPT ![k + 1] = b]

SetAll     == bits' = Fill(Size, 1)
ClearAll   == bits' = Fill(Size, 0)
\* v is the item as a function: v[j] its bit of weight 2^j
PutN(k, n, v) == [m \in 1..Size |-> IF m - 1 >= k /\ m - 1 < k + n THEN v[m - 1 - k] ELSE bits[m]]
GetN(k, n)    == [j \in 0..(n - 1) |-> IF In(k + j) THEN Bit(k + j) ELSE 0]
Served(k, n)  == In(k) /\ n \in 1..WMax
=============================================================================
