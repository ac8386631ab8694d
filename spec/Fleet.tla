------------------------------- MODULE Fleet -------------------------------
(***************************************************************************)
(* Several objects of the library used side by side.  A fleet maps a slot   *)
(* to the state of the object there; an operation on one object is a step   *)
(* of that object and leaves every other one as it is, so the behaviour of  *)
(* each object is that of its own operations, whatever happens in between.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Step(f, s, Op(_)) == [f EXCEPT ![s] = Op(f[s])]
Own(g, s) == SelectSeq(g, LAMBDA e : e[1] = s)             \* the operations of slot s in the common history
Run(q, ops, Do(_, _)) == FoldLeft(Do, q, ops)
=============================================================================
