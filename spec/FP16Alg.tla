------------------------------ MODULE FP16Alg ------------------------------
(***************************************************************************)
(* The two word-level algorithms of the fixed point type, on a word of 2F   *)
(* bits with F fraction bits, checked for EVERY pair of operands against    *)
(* the exact rounded result:                                                *)
(*  - multiplication by partial products of half words with the rounding    *)
(*    carry done on the double word;                                        *)
(*  - division by normalise, shift and subtract, one bit per step.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT F                          \* fraction bits; words have W = 2F bits
W == 2 * F
P2(k) == 2 ^ k
MaxW == P2(W - 1) - 1
MarkerW == -P2(W - 1)
Vals == (-MaxW)..MaxW
Abs(a) == IF a < 0 THEN -a ELSE a
RHA(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))   \* nearest, ties away
Fit(r) == IF Abs(r) <= MaxW THEN r ELSE MarkerW
MulRef(x, y) == Fit(RHA(x * y, P2(F)))
DivRef(x, y) == Fit(LET n == Abs(x) * P2(F) d == Abs(y) q == (2 * n + d) \div (2 * d)
                    IN IF (x < 0) = (y < 0) THEN q ELSE -q)

\* two's complement helpers
U(a) == a % P2(W)
S(u) == IF u >= P2(W - 1) THEN u - P2(W) ELSE u
MulAlg(x, y) ==
  LET a == x \div P2(F) c == y \div P2(F) b == x % P2(F) d == y % P2(F)
      cross == a * d + c * b                       \* one bit more than a word
      h0 == a * c + (cross \div P2(F))
      bd == b * d
      l0 == (bd + (cross % P2(F)) * P2(F)) % P2(W)
      h1 == IF l0 < bd THEN h0 + 1 ELSE h0
      sign == IF h1 < 0 THEN -1 ELSE 0
      l1 == l0 - P2(F - 1) - (IF h1 < 0 THEN 1 ELSE 0)
      h2 == IF l1 < 0 THEN h1 - 1 ELSE h1
      l2 == l1 % P2(W)
  IN IF sign = h1 \div P2(F - 1) THEN S(U(h2 * P2(F) + (l2 \div P2(F)) + 1)) ELSE MarkerW

VARIABLES x, y, pc, rem, dv, bit, q
vars == <<x, y, pc, rem, dv, bit, q>>
Init == /\ x \in Vals /\ y \in Vals \ {0} /\ pc = "norm" /\ rem = Abs(x) /\ dv = Abs(y) /\ bit = P2(F) /\ q = 0
Norm == pc = "norm" /\ IF dv < rem THEN dv' = (2 * dv) % P2(W) /\ bit' = (2 * bit) % P2(W) /\ UNCHANGED <<x, y, pc, rem, q>>
                       ELSE pc' = (IF bit = 0 THEN "overflow" ELSE "top") /\ UNCHANGED <<x, y, rem, dv, bit, q>>
Top == pc = "top" /\ pc' = "loop" /\ UNCHANGED <<x, y>>
       /\ IF dv >= P2(W - 1)
          THEN /\ q' = (IF rem >= dv THEN q + bit ELSE q) /\ rem' = (IF rem >= dv THEN rem - dv ELSE rem)
               /\ dv' = dv \div 2 /\ bit' = bit \div 2
          ELSE UNCHANGED <<rem, dv, bit, q>>
Loop == pc = "loop" /\ UNCHANGED <<x, y, dv>>
        /\ IF bit # 0 /\ rem # 0
           THEN /\ LET r2 == IF rem >= dv THEN rem - dv ELSE rem IN rem' = (2 * r2) % P2(W)
                /\ q' = (IF rem >= dv THEN q + bit ELSE q) /\ bit' = bit \div 2 /\ UNCHANGED pc
           ELSE pc' = "done" /\ q' = (IF rem >= dv THEN q + 1 ELSE q) /\ UNCHANGED <<rem, bit>>
Next == Norm \/ Top \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == IF pc = "overflow" THEN MarkerW
          ELSE IF q > MaxW THEN MarkerW ELSE IF (x < 0) = (y < 0) THEN q ELSE -q
DivExact == pc \in {"done", "overflow"} => Result = DivRef(x, y)
NoLoss   == rem < P2(W) /\ dv # 0                   \* neither register ever loses its top bit for good
MulExact == (pc = "norm" /\ bit = P2(F)) => MulAlg(x, y) = MulRef(x, y)
Terminates == <>(pc \in {"done", "overflow"})
=============================================================================
