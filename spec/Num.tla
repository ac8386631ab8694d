------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Exact numbers for TLC.                                                   *)
(*                                                                          *)
(* TLC's own integers are 32-bit, so this module carries every wide or      *)
(* fractional quantity as a STRING that denotes an exact rational:          *)
(*   "7"   "-7/3"   "0x1.8p+1" (a C99 hexadecimal float)   "1.5e-3"         *)
(* All operators accept any of these notations and return the canonical     *)
(* one ("n" or "n/d", d > 1, lowest terms), so canonical strings are equal  *)
(* exactly when the numbers are.  The three strings "nan", "inf" and "-inf" *)
(* are not numbers; specifications treat them explicitly.                   *)
(*                                                                          *)
(* The operators below are declared with their meaning in comments and are  *)
(* evaluated by Num.java (java.math.BigInteger).  NumSelf.tla re-checks the *)
(* ring, order and rounding laws they must satisfy.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undef == CHOOSE s \in STRING : FALSE

NCanon(a)   == Undef   \* canonical notation of a
NAdd(a, b)  == Undef   \* a + b
NSub(a, b)  == Undef   \* a - b
NMul(a, b)  == Undef   \* a * b
NDiv(a, b)  == Undef   \* a / b              (b # 0)
NNeg(a)     == Undef   \* -a
NAbs(a)     == Undef   \* |a|
NLt(a, b)   == FALSE   \* a < b
NLe(a, b)   == FALSE   \* a <= b
NEq(a, b)   == FALSE   \* a = b
NMin(a, b)  == Undef
NMax(a, b)  == Undef
NSgn(a)     == 0       \* -1, 0, 1 as a TLC integer
NFloor(a)   == Undef   \* greatest integer <= a
NTrunc(a)   == Undef   \* integer part, toward zero
NIsInt(a)   == FALSE
NPow(a, k)  == Undef   \* a^k, k a TLC integer
NPow2(k)    == Undef   \* 2^k, k a TLC integer (may be negative)
NOf(i)      == Undef   \* the number of a TLC integer
NInt(a)     == 0       \* the TLC integer of a (|a| < 2^31)
NRnd(a)     == Undef   \* some b with |a-b| <= 2^-180 |a|  (keeps terms short)
NF32(a)     == Undef   \* a rounded to the nearest IEEE binary32 (ties to even)
NF64(a)     == Undef   \* the same for binary64
NLog2F(a)   == 0       \* floor(log2 |a|), a # 0
\* naturals as bit strings (two operands, both >= 0)
NAnd(a, b)  == Undef
NOr(a, b)   == Undef
NXor(a, b)  == Undef
NMod(a, b)  == Undef   \* a - b*floor(a/b)
NBit(a, k)  == 0       \* bit k of the natural a, as 0 or 1
\* real functions, correct to 2^-100 relative to max(1,|result|)
NSqrt(a)    == Undef
NExp(a)     == Undef
NLn(a)      == Undef
NSin(a)     == Undef
NCos(a)     == Undef
NAtan(a)    == Undef
NPi         == Undef
NDec(a, k)  == Undef   \* a written in decimal, truncated to k places (for reports)

-----------------------------------------------------------------------------
IsNum(a)     == a \notin {"nan", "inf", "-inf"}
a \oplus b   == NAdd(a, b)
a \ominus b  == NSub(a, b)
a \otimes b  == NMul(a, b)
a \oslash b  == NDiv(a, b)
a \prec b    == NLt(a, b)
a \preceq b  == NLe(a, b)
NSq(a)       == NMul(a, a)

\* |a - b| <= tol
NNear(a, b, tol) == NLe(NAbs(NSub(a, b)), tol)
\* |a - b| <= tol * max(1,|b|)   (mixed absolute / relative)
NClose(a, b, tol) == NLe(NAbs(NSub(a, b)), NMul(tol, NMax("1", NAbs(b))))

RECURSIVE NSumTo(_, _)
NSumTo(s, k) == IF k = 0 THEN "0" ELSE NAdd(NSumTo(s, k - 1), s[k])
NSum(s) == NSumTo(s, Len(s))            \* sum of a sequence of numbers
RECURSIVE NDotTo(_, _, _)
NDotTo(s, t, k) == IF k = 0 THEN "0" ELSE NAdd(NDotTo(s, t, k - 1), NMul(s[k], t[k]))
NDot(s, t) == NDotTo(s, t, IF Len(s) < Len(t) THEN Len(s) ELSE Len(t))
RECURSIVE NMaxSeqTo(_, _)
NMaxSeqTo(s, k) == IF k = 1 THEN NCanon(s[1]) ELSE NMax(NMaxSeqTo(s, k - 1), s[k])
NMaxSeq(s) == NMaxSeqTo(s, Len(s))
RECURSIVE NMinSeqTo(_, _)
NMinSeqTo(s, k) == IF k = 1 THEN NCanon(s[1]) ELSE NMin(NMinSeqTo(s, k - 1), s[k])
NMinSeq(s) == NMinSeqTo(s, Len(s))
NClamp(x, lo, hi) == IF NLt(x, lo) THEN NCanon(lo) ELSE IF NLt(hi, x) THEN NCanon(hi) ELSE NCanon(x)
=============================================================================
