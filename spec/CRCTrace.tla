------------------------------ MODULE CRCTrace ------------------------------
EXTENDS CRC, TraceBase
VARIABLE i
Eq(v, x) == IsNum(v) /\ NEq(v, x)
\* an absent or empty message has no code: the result is zero
Ok(e) ==
  \/ e.op = "new"
  \/ e.op = "generic" /\ e.mode \in {8, 16, 32} /\ e.msg # <<>>
       /\ Eq(e.r, Crc(e.msg, e.mode, e.poly, e.init, e.refIn, e.refOut, e.xor))
  \/ e.op = "generic" /\ (e.mode \notin {8, 16, 32} \/ e.msg = <<>>) /\ Eq(e.r, "0")
  \/ e.op = "named" /\ e.msg # <<>> /\ Eq(e.r, Named(e.name, e.msg))
  \/ e.op = "named" /\ e.msg = <<>> /\ Eq(e.r, "0")
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
