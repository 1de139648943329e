---------------------------- MODULE ClientTrace ----------------------------
(* Validates recorded runs of the real client's checks against Client.        *)
EXTENDS Client, TraceLib
VARIABLES
  l,      \* position in the trace
  lost    \* the state is not as it should be: what follows cannot be judged
tvars == <<clvars, l, lost>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)

\* why the answer r must not be accepted: the properties concerned
Reasons(r) ==
  (IF r.shape \in Missing THEN {"C07", "C02"} ELSE {})
  \cup (IF r.shape \in Surplus \/ r.err \notin Status THEN {"C02"} ELSE {})
  \cup (IF r.shape \notin Missing /\ ~StrFits(r) THEN {"C01", "C02"} ELSE {})
  \cup (IF ~PathOK(r) \/ ~StatusOK(r) \/ ~TbOK(r) THEN {"C02"} ELSE {})
  \cup (IF ~ExpOK(r) THEN {"C02", "C04"} ELSE {})
  \cup (IF ~PromiseOK(r) THEN {"C05"} ELSE {})
  \cup (IF ~TbOK(r) THEN {"C05"} ELSE {})

\* an answer as an honest directory gives it, except that it is not what the
\* client expects: reported as differing binding (C03)
OnlyDiffers(r) == Proven(r) /\ PromiseOK(r) /\ ~ExpOK(r) /\ HonestUpTo(r.s)

ObsOK == E.o.code = "ok"
Names == DOMAIN keys

\* the state after the step as it should be, given the choices left open
StateOK ==
  /\ C({"C01"} \cup (IF ObsOK THEN {"C02"} ELSE {}) \cup (IF E.r.shape \in Missing THEN {"C07"} ELSE {}), IF E.r.m = "polshift" THEN "trusted root polshift" ELSE "trusted root", v', E.o.v)
  /\ \A n \in Names :
       C((IF ObsOK THEN {"C04", "C02"} ELSE {"C02", "C04"})
         \cup (IF E.r.shape \in Missing THEN {"C07"} ELSE {}), "remembered key", keys'[n], E.o.keys[n])
  /\ \A n \in Names :
       C({"C05"} \cup (IF ObsOK THEN {} ELSE {"C02"}) \cup (IF E.r.shape \in Missing THEN {"C07"} ELSE {}), "promise",
         tbs'[n], E.o.tbs[n])

TResp ==
  /\ l \in DOMAIN Trace /\ ~lost /\ E.ev = "Resp" /\ l' = l + 1 /\ UNCHANGED U
  /\ LET r == E.r
         ok == Accept(r)
         odd == Proven(r) /\ ExpOK(r) /\ Odd(r) /\ ObsOK
     IN
     /\ IF ok \/ odd THEN
          /\ Accepted(r)
          /\ Kind(r) = "incl" => (tbs'[r.n].s # 0 <=> (tbs[r.n].s # 0 /\ E.o.tbs[r.n].s # 0))
        ELSE /\ UNCHANGED <<keys, tbs>> /\ last' = NoAnswer
             /\ v' = IF MayAdvance(r) /\ E.o.v = r.s THEN r.s ELSE v
     /\ IF E.o.code \in {"panic", "hang"} THEN C({"C07", "C02"}, "crash", "an error", E.o.code)
        ELSE IF ObsOK /\ ~ok /\ ~odd
          THEN C(Reasons(r), IF r.m = "polshift" THEN "accepted polshift" ELSE "accepted", "rejected", "accepted")
        ELSE IF ~ObsOK /\ ok
          THEN IF HonestUpTo(r.s) THEN C({"C03"}, "rejected", "accepted", E.o.code) ELSE TRUE
        ELSE C({"C03"}, "verdict", IF OnlyDiffers(r) THEN "differ" ELSE E.o.code, E.o.code)
     /\ IF ObsOK = (ok \/ odd) THEN StateOK ELSE TRUE
     /\ lost' = ~(v' = E.o.v /\ \A n \in Names : keys'[n] = E.o.keys[n] /\ tbs'[n].s = E.o.tbs[n].s /\ tbs'[n].k = E.o.tbs[n].k)

TEquiv ==
  /\ l \in DOMAIN Trace /\ ~lost /\ E.ev = "Equiv" /\ l' = l + 1 /\ UNCHANGED <<clvars, lost>>
  /\ LET ok == E.shape = "whole" /\ EquivOK(E.rng)
         shifted == \E i \in DOMAIN E.rng : E.rng[i].m = "polshift"
     IN IF E.o.code \in {"panic", "hang"} THEN C({"C06", "C07"}, "crash", "an error", E.o.code)
        ELSE C({"C06"}, IF shifted THEN "comparison polshift" ELSE "comparison", ok, ObsOK)
  /\ C({"C06"}, "comparison changes the root", v, E.o.v)
  /\ \A n \in Names : C({"C06"}, "comparison changes keys", keys[n], E.o.keys[n])
                   /\ C({"C06"}, "comparison changes promises", tbs[n], E.o.tbs[n])

TInit == \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
           /\ ClientInit(Trace[i].u, DOMAIN Trace[i].u[1].tree)
           /\ l = i + 1 /\ lost = FALSE
           /\ Chk(i, {"C01"}, "pinned root", 1, Trace[i].o.v)
TLost == lost /\ l \in DOMAIN Trace /\ E.ev # "New" /\ l' = l + 1 /\ UNCHANGED <<clvars, lost>>
TNext == TResp \/ TEquiv \/ TLost
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
