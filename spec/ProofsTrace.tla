---------------------------- MODULE ProofsTrace ----------------------------
(* Compares the verdicts of the real Verify with Accept.                      *)
EXTENDS Proofs, TraceLib
VARIABLES l
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)
Expected(f) == IF Accept(f) THEN "ok" ELSE "reject"

One ==
  /\ E.ev = "Proof"
  /\ IF E.obs = "panic" THEN C({"M02", "C07"}, "no crash", "verdict", E.obs)
     ELSE C(IF Accept(E.f) THEN {"M01", "M02"} ELSE {"M02"}, "verdict", Expected(E.f), E.obs)
  /\ (E.obs = "ok" /\ E.honest) => C({"M02"}, "claim is true", E.truth, E.claim)
Two ==
  /\ E.ev = "Pair"
  /\ C({"M02"}, "verdict", Expected(E.f1), E.obs1)
  /\ C({"M02"}, "verdict", Expected(E.f2), E.obs2)
  /\ C({"M02"}, "one answer per root", FALSE, E.obs1 = "ok" /\ E.obs2 = "ok" /\ E.claim1 # E.claim2)
TInit == l = 1
TNext == l \in DOMAIN Trace /\ (One \/ Two) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
==============================================================================
