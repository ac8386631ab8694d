------------------------------ MODULE GeoTrace ------------------------------
EXTENDS Geo, TraceBase
VARIABLE i
PiF == "0x1.921fb6p+1"      \* the library's pi is the nearest single precision number
Ok(e) ==
  CASE e.op = "new" -> TRUE
    [] e.op = "wrap" -> /\ WrapSymOK(e.x, PiF, e.pi) /\ WrapPosOK(e.x, NMul("2", PiF), e.pi2)
                        /\ WrapSymOK(e.x, "180", e.d180) /\ WrapPosOK(e.x, "360", e.d360)
                        /\ DegEndsOK(e.x, e.d180, e.d360)
    [] e.op = "lerp" -> LerpOK(e.a, e.b, e.t, e.y)
    [] e.op = "lerp2" -> LerpMono(e.a, e.b, e.t1, e.t2, e.y1, e.y2)
    [] e.op = "map" -> NormOK(e.x, e.lo, e.hi, e.n) /\ MapOK(e.x, e.lo, e.hi, e.a, e.b, e.m)
    [] e.op = "poly" -> PolyOK([k \in 1..Len(e.px) |-> <<e.px[k], e.py[k]>>], e.x, e.y, e.r)
    [] e.op = "circle" -> CircleOK(e.x, e.y, e.cx, e.cy, e.rad, e.r)
    [] OTHER -> FALSE
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
