--------------------------- MODULE BitFieldTrace ---------------------------
EXTENDS BitField, Num, TraceBase
VARIABLE i
Word(v) == [j \in 0..31 |-> NBit(v, j)]                 \* v: a natural < 2^32, as a Num string
IsU32(v) == IsNum(v) /\ NIsInt(v) /\ NLe("0", v) /\ NLt(v, "4294967296")
\* recorded storage: a sequence of bytes, byte b holding bits 8b..8b+7, low bit first
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Raw(a) == [m \in 1..(8 * Len(a)) |-> (a[((m - 1) \div 8) + 1] \div P2[((m - 1) % 8) + 1]) % 2]
Holds(e) == bits' = Raw(e.area)

New(e)  == bits' = Raw(e.area) /\ Len(e.area) = e.n /\ e.ok = TRUE
BitOps(e) ==
  \/ e.op = "set" /\ IF In(e.k) THEN bits' = Put(e.k, 1) /\ e.ok ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "clr" /\ IF In(e.k) THEN bits' = Put(e.k, 0) /\ e.ok ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "tog" /\ IF In(e.k) THEN bits' = Put(e.k, 1 - Bit(e.k)) /\ e.ok ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "wr"  /\ IF In(e.k) THEN bits' = Put(e.k, e.v) /\ e.ok ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "rd"  /\ UNCHANGED bits /\ e.v = (IF In(e.k) THEN Bit(e.k) ELSE 0)
All(e) == \/ e.op = "setall" /\ SetAll /\ e.ok
          \/ e.op = "clrall" /\ ClearAll /\ e.ok
\* item of one bit: any non-zero value may count as one
OneBit(v) == {Word(v)[0], IF NEq(v, "0") THEN 0 ELSE 1}
ItemOps(e) ==
  \/ e.op = "wn" /\ IF Served(e.k, e.w)
                    THEN /\ e.ok
                         /\ IF e.w = 1 THEN \E b \in OneBit(e.v) : bits' = Put(e.k, b)
                                       ELSE bits' = PutN(e.k, e.w, Word(e.v))
                    ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "rn" /\ UNCHANGED bits /\ IsU32(e.v)
                 /\ IF Served(e.k, e.w)
                    THEN \A j \in 0..31 : Word(e.v)[j] = IF j < e.w THEN GetN(e.k, e.w)[j] ELSE 0
                    ELSE NEq(e.v, "0")
  \/ e.op = "wf" /\ IF Served(e.k, 32) THEN e.ok /\ bits' = PutN(e.k, 32, Word(e.v)) ELSE ~e.ok /\ UNCHANGED bits
  \/ e.op = "rf" /\ UNCHANGED bits /\ IsU32(e.v)
                 /\ IF Served(e.k, 32) THEN \A j \in 0..31 : Word(e.v)[j] = GetN(e.k, 32)[j] ELSE NEq(e.v, "0")
\* dump of n bytes: served iff n bytes are there, copies exactly the first n, nothing else
Dump(e) == /\ e.op = "dump" /\ UNCHANGED bits
           /\ e.ok = (Size > 0 /\ 8 * e.n <= Size)
           /\ \A m \in 1..Len(e.dst) : e.dst[m] = IF e.ok /\ m <= e.n THEN e.area[m] ELSE 170
\* an instance that was never (successfully) set up refuses everything
Blank(e) == e.op = "blank" /\ bits' = <<>> /\ \A k \in 1..Len(e.oks) : e.oks[k] = 0

Init == i = 0 /\ bits = <<>>
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ LET e == Trace[i']
           IN IF e.op = "new" THEN New(e)
              ELSE IF e.op = "blank" THEN Blank(e)
              ELSE (BitOps(e) \/ All(e) \/ ItemOps(e) \/ Dump(e)) /\ Holds(e)
Spec == Init /\ [][Next]_<<bits, i>>
=============================================================================
