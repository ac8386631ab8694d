------------------------------ MODULE AlgoTrace -----------------------------
EXTENDS Algo, TraceBase
VARIABLES i
Init == i = 0
(* ids, where the element type has them, name the original (0-based) position *)
Same(e) == e.b = e.a /\ (e.ids => \A j \in DOMAIN e.id : e.id[j] = j - 1)
Moved(e) == e.ids => /\ \A j \in DOMAIN e.id : e.b[j] = e.a[e.id[j] + 1]
                     /\ Cardinality({e.id[j] : j \in DOMAIN e.id}) = Len(e.id)
                     /\ \A j \in DOMAIN e.id : ~In(e.f, e.l, j) => e.id[j] = j - 1
Eq(v, k) == k = v
Bool(x) == IF x THEN 1 ELSE 0
Ok(e) ==
  LET P(k) == Holds(e.x, e.y, k)
      IsX(k) == k = e.x
      Pid(Q(_), m) == e.ids => \A j \in DOMAIN e.id : e.id[j] = IF In(e.f, e.l, j) /\ Q(e.a[j]) THEN m ELSE j - 1
      All(k) == TRUE
  IN CASE e.op = "new" -> TRUE
       [] e.op = "sort" -> SortedOK(e.x, e.a, e.b, e.f, e.l) /\ Moved(e)
       [] e.op = "reverse" -> e.b = Reversed(e.a, e.f, e.l) /\ Moved(e)
       [] e.op = "rotate" -> e.b = Rotated(e.a, e.x) /\ Moved(e)
       [] e.op = "swap" -> e.b = Swapped(e.a, e.x + 1, e.y + 1) /\ Moved(e)
       [] e.op = "fill" -> e.b = Filled(e.a, e.x, e.f, e.l) /\ Pid(All, 900)
       [] e.op = "find" -> Same(e) /\ e.res + 1 = First(Matches(e.a, IsX, e.f, e.l))
       [] e.op = "bsearch" -> LET M == Matches(e.a, IsX, e.f, e.l)
                              IN Same(e) /\ IF M = {} THEN e.res = -1 ELSE e.res + 1 \in M
       [] e.op = "replace" -> e.b = Replaced(e.a, IsX, e.y, e.f, e.l) /\ Pid(IsX, 901)
       [] e.op = "replace_if" -> e.b = Replaced(e.a, P, e.res, e.f, e.l) /\ Pid(P, 901)
       [] e.op = "for_each" -> e.seen = SubSeq(e.a, e.f, e.l) /\ e.b = [j \in DOMAIN e.a |-> e.a[j] + (IF In(e.f, e.l, j) THEN 100 ELSE 0)]
       [] e.op = "any_of" -> Same(e) /\ e.res = Bool(Matches(e.a, P, e.f, e.l) /= {})
       [] e.op = "all_of" -> Same(e) /\ e.res = Bool(Matches(e.a, P, e.f, e.l) = e.f..e.l)
       [] e.op = "count_if" -> Same(e) /\ e.res = Cardinality(Matches(e.a, P, e.f, e.l))
       [] e.op = "find_if" -> Same(e) /\ e.res + 1 = First(Matches(e.a, P, e.f, e.l))
Next == i < Len(Trace) /\ i' = i + 1 /\ Ok(Trace[i'])
Spec == Init /\ [][Next]_i
=============================================================================
