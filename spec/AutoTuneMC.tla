----------------------------- MODULE AutoTuneMC -----------------------------
(* The life cycle of a tuner: binding, arming with n steps, steps with and   *)
(* without a meaningful estimate, disarming and unbinding, in every order.   *)
(* Gains are installed at most once per arming, never while disarmed or      *)
(* unbound, and completion is reported exactly from then on.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LMax
VARIABLES bound, it, src, armed, seen, hist
vars == <<bound, it, src, armed, seen, hist>>
H(s) == hist' = Append(hist, s)
Init == bound = FALSE /\ it = -1 /\ src = 0 /\ armed = 0 /\ seen = 0 /\ hist = <<>>
Bind == bound' = TRUE /\ it' = -1 /\ armed' = 0 /\ seen' = 0 /\ UNCHANGED src /\ H("bind 0")
Unbind == bound /\ bound' = FALSE /\ UNCHANGED <<it, src, armed, seen>> /\ H("unbind")
Arm(n) == /\ IF bound THEN it' = (IF n = 0 THEN -1 ELSE n) /\ armed' = n /\ seen' = 0 ELSE UNCHANGED <<it, armed, seen>>
          /\ UNCHANGED <<bound, src>> /\ H("enable " \o ToString(n))
Step == /\ IF bound /\ it > 0 THEN it' = it - 1 /\ seen' = seen + 1 /\ src' = (IF it = 1 THEN src + 1 ELSE src)
                              ELSE UNCHANGED <<it, src, seen>>
        /\ UNCHANGED <<bound, armed>> /\ H("step")
Next == Len(hist) < LMax /\ (Bind \/ Unbind \/ (\E n \in {0, 1, 2} : Arm(n)) \/ Step)
Spec == Init /\ [][Next]_vars
Complete == bound /\ it = 0
OnlyWhenArmed == [][src' # src => bound /\ armed > 0 /\ seen' = armed]_vars
CompleteMeansInstalled == Complete => armed > 0 /\ seen = armed /\ src > 0
Emit == Len(hist) = LMax => PrintT("HIST " \o ToJson(hist))
=============================================================================
