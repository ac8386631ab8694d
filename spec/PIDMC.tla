------------------------------- MODULE PIDMC -------------------------------
(* Every short history of samples, mode switches, manual inputs and resets   *)
(* for three controllers: the output never leaves its limits, saturation     *)
(* does not wind up the integral action, derivative action dies out on       *)
(* constant signals, and reset restores the initial behaviour.               *)
EXTENDS PID, Json
CONSTANTS LMax, Which
Base(kc, ki, kd) == LET c == SetUp(Blank, kc, ki, kd, "0.5") IN [c EXCEPT !.g.lo = "-4", !.g.hi = "4", !.g.beta = "0.5", !.g.c = "1"]
Cs == << Base("2", "1", "0"), Base("1", "0.5", "0.25"), [Base("1", "1", "1") EXCEPT !.g.dir = "bwd", !.g.eps = "0.5", !.g.b = "0.5", !.g.c = "0"] >>
VARIABLES c, u, run, hist
vars == <<c, u, run, hist>>
Init == \E k \in Which : c = Cs[k] /\ u = "0" /\ run = <<k>> /\ hist = <<ToString(k)>>
Sample(w, y) == \E ch \in PidChoices(c, w, y) :
     LET k == Compute(c, w, y, "0", ch) IN /\ u' = NCanon(k.u) /\ c' = Commit(c, k, k.u)
                                           /\ run' = Append(run, <<w, y>>) /\ hist' = Append(hist, "ctl " \o w \o " " \o y \o " 0")
Mode(m) == c.g.mode # m /\ c' = [c EXCEPT !.g.mode = m] /\ UNCHANGED u /\ run' = <<run[1]>> /\ hist' = Append(hist, "mode " \o m)
Man(v) == c.g.man # v /\ c.g.mode = "man" /\ c' = [c EXCEPT !.g.man = v] /\ UNCHANGED u /\ run' = <<run[1]>> /\ hist' = Append(hist, "manual " \o v)
Rst == Len(run) > 1 /\ c' = ResetPid(c) /\ UNCHANGED u /\ run' = <<run[1]>> /\ hist' = Append(hist, "reset")
Next == Len(hist) <= LMax /\ (Sample("1", "0") \/ Sample("8", "0") \/ Sample("1", "3") \/ Sample("1", "1.25") \/ Mode("man") \/ Mode("auto") \/ Man("2") \/ Rst)
Spec == Init /\ [][Next]_vars
InLimits == NLe("-4", u) /\ NLe(u, "4")
\* back-calculation keeps the unsaturated action within a fixed distance of the limits
WindUpBounded == NLe(NAbs(c.z.u1), "64")
ResetIsFresh == Len(run) = 1 /\ Len(hist) > 1 /\ hist[Len(hist)] = "reset" => c.z = Memory
Emit == Len(hist) = LMax + 1 => PrintT("HIST " \o ToJson(hist))
=============================================================================
