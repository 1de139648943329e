---------------------------- MODULE SystemTrace ----------------------------
(* Validates recorded runs of the real directory, clients and auditor working *)
(* together against System.                                                   *)
EXTENDS System, TraceLib
VARIABLES l, lost
tvars == <<sysvars, l, lost>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)
O == E.o
Clients == DOMAIN cl
Names(c) == DOMAIN cl[c].keys

Same(c, n) == cl'[c].tbs[n].e = O.cl[c].tbs[n].e /\ cl'[c].tbs[n].k = O.cl[c].tbs[n].k
Off == ~(/\ \A c \in Clients : /\ cl'[c].v = O.cl[c].v
                               /\ \A n \in Names(c) : cl'[c].keys[n] = O.cl[c].keys[n] /\ Same(c, n)
         /\ aud' = O.aud)
StateOK ==
  /\ \A c \in Clients :
       /\ C({"C03", "C01"}, "trusted epoch", cl'[c].v, O.cl[c].v)
       /\ \A n \in Names(c) :
            /\ C({"C03", "C04"}, "remembered key", cl'[c].keys[n], O.cl[c].keys[n])
            /\ C({"C03", "C05"}, "promise", [e |-> cl'[c].tbs[n].e, k |-> cl'[c].tbs[n].k], [e |-> O.cl[c].tbs[n].e, k |-> O.cl[c].tbs[n].k])
  /\ C({"A01"}, "observed epoch", aud', O.aud)
  /\ lost' = Off
Step == l \in DOMAIN Trace /\ ~lost /\ l' = l + 1
Verdict ==
  IF rep'.code = "refused" THEN C({"C01"}, "verdict", TRUE, O.code \notin {"ok", "panic", "hang"})
  ELSE C({"C03"} \cup (IF O.code = "ok" THEN {"C02", "C04"} ELSE {}), "verdict", rep'.code, O.code)
\* the choices left open are those observed
Chosen(c, n) ==
  /\ rep'.code = "ok" /\ resp'.tb = "" /\ rep'.key # "" /\ cl[c].tbs[n] # NoPromise =>
        (cl'[c].tbs[n] = NoPromise <=> O.cl[c].tbs[n].e = -1)
  /\ rep'.code = "differ" => (cl'[c].v = cl[c].v <=> (O.cl[c].v = cl[c].v))

TReg == /\ Step /\ E.ev = "Reg" /\ ClientRegister(E.c, E.n, E.k) /\ Chosen(E.c, E.n)
        /\ Verdict /\ C({"C03"}, "key", rep'.key, IF O.code = "ok" THEN O.key ELSE "") /\ StateOK
TLook == /\ Step /\ E.ev = "Look" /\ ClientLookup(E.c, E.n, E.k) /\ Chosen(E.c, E.n)
         /\ Verdict /\ C({"C03"}, "key", rep'.key, IF O.code = "ok" THEN O.key ELSE "") /\ StateOK
TUpd == Step /\ E.ev = "Upd" /\ SysUpdate /\ StateOK
TPol == Step /\ E.ev = "Pol" /\ SysPolicies(E.dl) /\ StateOK
TFetch == /\ Step /\ E.ev = "Fetch" /\ AuditorFetch(E.s)
          /\ IF rep'.code = "refused" THEN C({"A01"}, "audit", TRUE, O.code \notin {"ok", "panic", "hang"})
             ELSE C({"C03", "A01"}, "audit", rep'.code, O.code)
          /\ StateOK
TComp == /\ Step /\ E.ev = "Comp" /\ ClientCompare(E.c, E.s, E.e)
         /\ IF rep'.code = "refused" THEN C({"C06"}, "comparison", TRUE, O.code \notin {"ok", "panic", "hang"})
            ELSE C({"C06", "A02"}, "comparison", rep'.code, O.code)
         /\ StateOK
TInit == \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
           /\ SysInit({Trace[i].clients[j] : j \in DOMAIN Trace[i].clients}, {Trace[i].names[j] : j \in DOMAIN Trace[i].names},
                      Trace[i].cap, Trace[i].dl, Trace[i].lcp)
           /\ l = i + 1 /\ lost = FALSE
TLost == lost /\ l \in DOMAIN Trace /\ E.ev # "New" /\ l' = l + 1 /\ UNCHANGED <<sysvars, lost>>
TNext == TReg \/ TLook \/ TUpd \/ TPol \/ TFetch \/ TComp \/ TLost
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
