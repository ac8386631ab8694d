------------------------------- MODULE FISMC -------------------------------
(***************************************************************************)
(* The meaning of rule sets is checked against the automaton that walks the *)
(* token stream once (one antecedent or consequent per step), for every     *)
(* rule set within the bound; plus the laws of fuzzy logic that strengths   *)
(* must satisfy.  Every explored rule set is also printed for replay.       *)
(***************************************************************************)
EXTENDS FIS, TLC, Json

Terms == { [who |-> m, mf |-> m, neg |-> n] : m \in {0, 1}, n \in BOOLEAN }
Lhs1 == { [t |-> <<a>>, c |-> <<>>] : a \in Terms }
Lhs2 == { [t |-> <<a, b>>, c |-> <<k>>] : a \in Terms, b \in Terms, k \in {TAND, TOR} }
Lhs3 == { [t |-> <<a, b, d>>, c |-> <<k, l>>] : a \in {x \in Terms : ~x.neg}, b \in Terms, d \in {x \in Terms : x.mf = 1}, k \in {TAND, TOR}, l \in {TAND, TOR} }
Rhs(no) == IF no = 1 THEN { <<[who |-> 0, mf |-> 0, neg |-> FALSE]>> }
           ELSE { <<[who |-> 0, mf |-> 0, neg |-> FALSE]>>, <<[who |-> 1, mf |-> 0, neg |-> FALSE]>>,
                  <<[who |-> 0, mf |-> 0, neg |-> FALSE], [who |-> 1, mf |-> 0, neg |-> FALSE]>> }
RulesOf(L, no) == { [t |-> l.t, c |-> l.c, k |-> k] : l \in L, k \in Rhs(no) }
OneRule(no) == { <<r>> : r \in RulesOf(Lhs1 \cup Lhs2 \cup Lhs3, no) }
TwoRules(no) == { <<r, s>> : r \in RulesOf({l \in Lhs2 : l.t[1].neg # l.t[2].neg}, no), s \in RulesOf(Lhs1, no) }

\* the token stream of a rule set
Tok(t) == <<t.who, IF t.neg THEN -(t.mf + 1) ELSE t.mf + 1>>
RECURSIVE LhsToks(_, _), RhsToks(_, _), SetToks(_, _)
LhsToks(r, k) == IF k > Len(r.t) THEN <<>> ELSE Tok(r.t[k]) \o <<IF k = Len(r.t) THEN TTHEN ELSE r.c[k]>> \o LhsToks(r, k + 1)
RhsToks(r, k) == IF k > Len(r.k) THEN <<>> ELSE (IF k > 1 THEN <<TAND>> ELSE <<>>) \o Tok(r.k[k]) \o RhsToks(r, k + 1)
SetToks(rs, k) == IF k > Len(rs) THEN <<>> ELSE LhsToks(rs[k], 1) \o RhsToks(rs[k], 1) \o SetToks(rs, k + 1)
Stream(rs) == <<RBEGIN>> \o SetToks(rs, 1) \o <<REND>>

FX == << <<"0", "1">>, <<"1/4", "3/4">>, <<"1/2", "1/2">>, <<"1", "1/4">> >>
Deg(f) == [k \in 1..2 |-> [v |-> f[k], t |-> "0"]]

VARIABLES no, rs, cf,           \* the configuration
          pos, st, last, acc, done, fi   \* the walking automaton over Stream(rs) with degrees FX[fi]
vars == <<no, rs, cf, pos, st, last, acc, done, fi>>
Init == /\ no \in {1, 2} /\ rs \in OneRule(no) \cup TwoRules(no)
        /\ cf \in { [and |-> a, or |-> o] : a \in {0, 1}, o \in {2, 3} }
        /\ fi \in 1..Len(FX)
        /\ pos = 2 /\ st = "ant" /\ last = 0 /\ acc = "0" /\ done = <<>>
Walk ==
  LET tok == Stream(rs) IN
  /\ tok[pos] # REND
  /\ IF st = "ant"
     THEN LET t == Term(tok, pos)
              d == Degree(t, Deg(FX[fi])).v
              a == IF last = 0 THEN U01(NAdd(acc, d)) ELSE Op(IF last = TAND THEN cf.and ELSE cf.or, acc, d)
              k == tok[pos + 2]
          IN /\ acc' = a /\ pos' = pos + 3
             /\ IF k = TTHEN THEN st' = "con" /\ last' = 0 ELSE st' = "ant" /\ last' = k
             /\ UNCHANGED done
     ELSE IF no > 1 /\ tok[pos + 2] = TAND THEN pos' = pos + 3 /\ UNCHANGED <<st, last, acc, done>>
          ELSE pos' = pos + 2 /\ st' = "ant" /\ last' = 0 /\ acc' = "0" /\ done' = Append(done, acc)
  /\ UNCHANGED <<no, rs, cf, fi>>
Spec == Init /\ [][Walk]_vars

AtEnd == Stream(rs)[pos] = REND
Strengths(g) == [k \in 1..Len(rs) |-> Strength(rs[k], Deg(FX[fi]), g, "1").v]
Parses == pos = 2 => Parse(Stream(rs), 2, no) = [ok |-> TRUE, rules |-> rs]
\* the automaton computes the meaning
Refines == AtEnd => done = Strengths(cf)
Unit == \A k \in 1..Len(rs) : NLe("0", Strengths(cf)[k]) /\ NLe(Strengths(cf)[k], "1")
\* de Morgan: swapping the connectors and negating every term negates the strength (min/max and product/probabilistic or)
Dual(r) == [r EXCEPT !.t = [k \in 1..Len(r.t) |-> [r.t[k] EXCEPT !.neg = ~@]], !.c = [k \in 1..Len(r.c) |-> IF r.c[k] = TAND THEN TOR ELSE TAND]]
Morgan == (cf.or = cf.and + 2) => \A k \in 1..Len(rs) : NEq(NAdd(Strength(rs[k], Deg(FX[fi]), cf, "1").v, Strength(Dual(rs[k]), Deg(FX[fi]), cf, "1").v), "1")
\* min and max bound what product and probabilistic or yield
Emit == (pos = 2 /\ fi = 1) => PrintT("HIST " \o ToJson([no |-> no, rules |-> rs, tok |-> Stream(rs), and |-> cf.and, or |-> cf.or, fx |-> FX]))
=============================================================================
