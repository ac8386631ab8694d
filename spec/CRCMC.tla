------------------------------- MODULE CRCMC -------------------------------
(* The shift register computes the remainder of polynomial division over     *)
(* GF(2), and detects every single-bit error and every burst no longer than  *)
(* the register: checked for every generator and message of small size.      *)
EXTENDS CRC, TLC
CONSTANTS W, MaxBits
VARIABLES poly, msg, reg     \* poly: low W bits of the generator (x^W implicit); msg: bits fed so far
vars == <<poly, msg, reg>>

Bits(x, w) == [j \in 1..w |-> NBit(x, w - j)]                \* most significant first
\* schoolbook division: remainder of the bit sequence d by x^W + poly
RECURSIVE Rem(_, _)
Rem(d, g) == IF Len(d) <= W THEN d
             ELSE LET t == Tail(d) IN Rem(IF d[1] = 0 THEN t ELSE [k \in 1..Len(t) |-> IF k <= W THEN (t[k] + g[k]) % 2 ELSE t[k]], g)
Zeros(n) == [k \in 1..n |-> 0]
Init == /\ poly \in {NOf(k) : k \in 1..(2^W - 1)} /\ msg = <<>> /\ reg = "0"
Next == /\ Len(msg) < MaxBits
        /\ \E b \in {0, 1} : msg' = Append(msg, b) /\ reg' = Clock(reg, b, W, poly)
        /\ UNCHANGED poly
Spec == Init /\ [][Next]_vars
Divides == Bits(reg, W) = (IF msg = <<>> THEN Zeros(W) ELSE Rem(msg \o Zeros(W), Bits(poly, W)))
\* a burst error of length <= W (generator with a constant term) changes the register
Run(m) == LET C(r, b) == Clock(r, b, W, poly) IN FoldLeft(C, "0", m)
Bursts == {b \in UNION {[1..k -> {0, 1}] : k \in 1..W} : b[1] = 1 /\ b[Len(b)] = 1}
DetectsBursts == (NBit(poly, 0) = 1 /\ Len(msg) = MaxBits) =>
   \A bu \in Bursts : \A p \in 0..(MaxBits - Len(bu)) :
      LET bad == [k \in 1..MaxBits |-> IF k > p /\ k <= p + Len(bu) THEN (msg[k] + bu[k - p]) % 2 ELSE msg[k]]
      IN  Run(bad) # reg
ASSUME CatalogueIsPublished
=============================================================================
