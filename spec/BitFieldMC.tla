---------------------------- MODULE BitFieldMC ----------------------------
(* The word-oriented read-modify-write design (words of W bits) is checked   *)
(* against the flat bit array for every content, index, width and value.     *)
EXTENDS BitField, TLC
CONSTANTS W, Slots
VARIABLE words           \* [0..Slots-1 -> 0..2^W-1]

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
BitOf(x, k) == (x \div P2(k)) % 2
Flat(ws) == [m \in 1..(W * Slots) |-> BitOf(ws[(m - 1) \div W], (m - 1) % W)]
Fn(x) == [j \in 0..(W - 1) |-> BitOf(x, j)]

\* the design, in modular arithmetic
ReadW(ws, k) == LET s == k \div W  o == k % W
                IN  (ws[s] \div P2(o)) + (IF o # 0 /\ s + 1 < Slots THEN (ws[s + 1] * P2(W - o)) % P2(W) ELSE 0)
WriteW(ws, k, x) ==
   LET s == k \div W  o == k % W
       w1 == [ws EXCEPT ![s] = ((x * P2(o)) % P2(W)) + (@ % P2(o))]
   IN  IF o = 0 THEN [ws EXCEPT ![s] = x]
       ELSE IF s + 1 < Slots THEN [w1 EXCEPT ![s + 1] = (x \div P2(W - o)) + ((@ \div P2(o)) * P2(o))]
       ELSE w1
ReadN(ws, k, n)     == ReadW(ws, k) % P2(n)
WriteN(ws, k, n, x) == WriteW(ws, k, (((ReadW(ws, k) \div P2(n)) * P2(n)) % P2(W)) + (x % P2(n)))

Init == words \in [0..(Slots - 1) -> {0, P2(W) - 1, 5 % P2(W), 9 % P2(W)}] /\ bits = Flat(words)
Next == \E k \in 0..(W * Slots - 1), n \in 1..W, x \in 0..(P2(W) - 1) :
          /\ Served(k, n)
          /\ words' = WriteN(words, k, n, x)
          /\ bits' = PutN(k, n, Fn(x))
Spec == Init /\ [][Next]_<<words, bits>>

DesignIsFlat == bits = Flat(words)
Fits == \A s \in 0..(Slots - 1) : words[s] \in 0..(P2(W) - 1)
ReadsBack == \A k \in 0..(W * Slots - 1), n \in 1..W :
               LET r == ReadN(words, k, n) IN \A j \in 0..(n - 1) : BitOf(r, j) = GetN(k, n)[j]
\* writing one item leaves every other item unchanged and is read back
WriteReadLaw == \A k \in 0..(W * Slots - 1), n \in 1..W, x \in {0, 6 % P2(W), P2(W) - 1} :
    LET b2 == PutN(k, n, Fn(x))
    IN  /\ \A m \in 1..Size : (m - 1 < k \/ m - 1 >= k + n) => b2[m] = bits[m]
        /\ \A j \in 0..(n - 1) : In(k + j) => b2[k + j + 1] = BitOf(x, j)
=============================================================================
