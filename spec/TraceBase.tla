----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification: the recorded trace and the      *)
(* acceptance condition.  A trace is accepted when some behaviour of the     *)
(* specification has one step for every event.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
      ELSE PrintT(<<"REJECTED-AT", d + 1>>) /\ FALSE
=============================================================================
