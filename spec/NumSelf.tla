----------------------------- MODULE NumSelf -----------------------------
(* Laws the evaluated operators of Num must obey; TLC checks the ASSUMEs.   *)
EXTENDS Num, TLC
S == {"0", "1", "-1", "3/4", "-7/3", "0x1.8p+1", "-0x1p-149", "1.5e-3", "4294967296", "-65536/5", "123456789012345678901234567890"}
ASSUME \A a, b \in S : NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a) /\ NSub(NAdd(a, b), b) = NCanon(a)
ASSUME \A a, b, c \in S : NMul(a, NAdd(b, c)) = NAdd(NMul(a, b), NMul(a, c)) /\ NAdd(a, NAdd(b, c)) = NAdd(NAdd(a, b), c)
ASSUME \A a, b \in S : ~NEq(b, "0") => NMul(NDiv(a, b), b) = NCanon(a)
ASSUME \A a, b \in S : (NLt(a, b) <=> NSgn(NSub(a, b)) = -1) /\ (NLe(a, b) <=> ~NLt(b, a)) /\ (NEq(a, b) <=> NCanon(a) = NCanon(b))
ASSUME \A i, j \in -9..9 : NInt(NMul(NOf(i), NOf(j))) = i * j /\ NInt(NAdd(NOf(i), NOf(j))) = i + j
ASSUME \A i \in -20..20, j \in 1..7 : NInt(NFloor(NDiv(NOf(i), NOf(j)))) = i \div j /\ NInt(NMod(NOf(i), NOf(j))) = i % j
ASSUME \A a \in S : NLe(NFloor(a), a) /\ NLt(a, NAdd(NFloor(a), "1")) /\ NIsInt(NFloor(a))
ASSUME \A a \in S : ~NEq(a, "0") => NLe(NPow2(NLog2F(a)), NAbs(a)) /\ NLt(NAbs(a), NPow2(NLog2F(a) + 1))
ASSUME NF32("16777217") = "16777216" /\ NF32("16777219") = "16777220" /\ NF32("1/3") = "11184811/33554432"
ASSUME NF32("3.5e38") = "inf" /\ NF32("-3.5e38") = "-inf"
ASSUME \A i, j \in 0..15 : NAdd(NXor(NOf(i), NOf(j)), NMul("2", NAnd(NOf(i), NOf(j)))) = NAdd(NOf(i), NOf(j))
Tiny == NPow2(-90)
ASSUME \A a \in {"2", "1/3", "5", "1e10", "1e-10"} : NClose(NSq(NSqrt(a)), a, Tiny)
ASSUME \A a, b \in {"0", "1", "-2", "1/7", "9.5", "-20"} : NClose(NExp(NAdd(a, b)), NMul(NExp(a), NExp(b)), Tiny)
ASSUME \A a \in {"1", "2", "1/3", "1e6", "1e-6"} : NClose(NExp(NLn(a)), a, Tiny)
ASSUME \A a \in {"0", "1", "-2", "3", "100", "-31.5", "7/8"} : NClose(NAdd(NSq(NSin(a)), NSq(NCos(a))), "1", Tiny)
ASSUME \A a, b \in {"0", "1", "-2", "3", "1/9"} : NClose(NSin(NAdd(a, b)), NAdd(NMul(NSin(a), NCos(b)), NMul(NCos(a), NSin(b))), Tiny)
ASSUME \A a \in {"0", "1", "-2", "3", "1/9", "1e9"} : NClose(NDiv(NSin(NAtan(a)), NCos(NAtan(a))), a, NPow2(-60))
ASSUME NClose(NMul("4", NAtan("1")), NPi, Tiny)
ASSUME NClose(NExp("1"), "2.718281828459045235360287471352662497757", "1e-36")
ASSUME NClose(NPi, "3.14159265358979323846264338327950288419716", "1e-38")
=============================================================================
