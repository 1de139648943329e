------------------------------ MODULE ConcStatic ------------------------------
(* What every answer of a server under concurrent load has to satisfy, in     *)
(* whichever order the requests were served.                                  *)
EXTENDS TraceLib
VARIABLES l, i, pub
cvars == <<l, i, pub>>
C(field, exp, obs) == Chk(l, {"S01"}, field, exp, obs)
Ok(o) ==
  /\ \A j \in DOMAIN o.strs :
       LET s == o.strs[j] IN
       /\ C("str.signature", TRUE, s.sig)
       /\ C("str.policies", TRUE, s.pol)
       /\ C("str.identity", IF s.ep \in DOMAIN pub THEN pub[s.ep] ELSE s.sid, s.sid)
       /\ C("str.link", IF s.ep = 0 THEN -1 ELSE IF (s.ep - 1) \in DOMAIN pub THEN pub[s.ep - 1] ELSE s.link, s.link)
  /\ \A j \in DOMAIN o.aps :
       /\ C("ap.verifies", TRUE, o.aps[j].ver)
       /\ C("ap.index", TRUE, o.aps[j].idx)
       /\ C("ap.vrf", TRUE, o.aps[j].vrf)
  /\ IF ~o.tb THEN TRUE ELSE C("tb.index", TRUE, o.tbidx) /\ C("tb.signature", TRUE, o.tbsig)
  /\ Chk(l, {"S01", "S03"}, "slow", FALSE, o.slow)
CInit == l = 1 /\ i = 1 /\ pub = [x \in {} |-> 0]
CNext ==
  /\ l \in DOMAIN Trace
  /\ IF Trace[l].ev # "Conc" THEN
       /\ Chk(l, IF Trace[l].ev = "Race" THEN {"S01"} ELSE {"S01", "S03"}, Trace[l].ev, "none", Trace[l].o)
       /\ l' = l + 1 /\ i' = 1 /\ pub' = [x \in {} |-> 0]
     ELSE IF i > Len(Trace[l].ops) THEN l' = l + 1 /\ i' = 1 /\ pub' = [x \in {} |-> 0]
     ELSE LET o == Trace[l].ops[i].o IN
       /\ Ok(o)
       /\ i' = i + 1 /\ l' = l
       /\ pub' = [e \in DOMAIN pub \cup {o.strs[j].ep : j \in DOMAIN o.strs} |->
                    IF e \in DOMAIN pub THEN pub[e]
                    ELSE LET j == CHOOSE j \in DOMAIN o.strs : o.strs[j].ep = e IN o.strs[j].sid]
CSpec == CInit /\ [][CNext]_cvars
==============================================================================
