---------------------------- MODULE AuditTrace ----------------------------
(* Validates recorded runs of the real audit log against AuditLog.            *)
EXTENDS AuditLog, TraceLib
VARIABLES
  l,      \* position in the trace
  lost    \* the state is not as it should be: what follows cannot be judged
tvars == <<auvars, l, lost>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)

Shifted == \E i \in DOMAIN E.rng : E.rng[i].m = "polshift"

\* what the log holds and serves afterwards: E.o.log lists for each known
\* directory its initial STR, latest STR and the full served range
Held == {[i |-> i, last |-> log'[i].hist[Len(log'[i].hist)], hist |-> log'[i].hist] : i \in {x \in DOMAIN log : log'[x].hist # <<>>}}
Got == {E.o.log[j] : j \in DOMAIN E.o.log}
Off == Held # Got
LogOK == IF E.ev # "Get" /\ Shifted THEN C({"A01"}, "log polshift", Held, Got)
         ELSE C({"A01", "A02"}, "log", Held, Got)

Crash(p) == IF E.o.err \in {"panic", "hang"} THEN C({p}, "crash", "an answer", E.o.err) ELSE TRUE

TInitH == /\ l \in DOMAIN Trace /\ E.ev = "Init" /\ ~lost /\ l' = l + 1
          /\ InitHistory(E.key, E.rng)
          /\ C({"A01"}, "init", ans'.err, E.o.err)
          /\ LogOK
          /\ lost' = Off
TAudit == /\ l \in DOMAIN Trace /\ E.ev = "Audit" /\ ~lost /\ l' = l + 1
          /\ Audit(E.i, E.shape, E.rng)
          /\ Crash("A01")
          /\ C({"A01"}, IF Shifted THEN "audit polshift" ELSE "audit", ans'.err = "ok", E.o.err = "ok")
          /\ LogOK
          /\ lost' = Off
TGet == /\ l \in DOMAIN Trace /\ E.ev = "Get" /\ ~lost /\ l' = l + 1
        /\ GetObserved(E.i, E.s, E.e)
        /\ C({"A02"}, "answer", ans'.err, E.o.err)
        /\ C({"A02"}, "range", ans'.strs, E.o.strs)
        /\ LogOK
        /\ lost' = Off

TInit == \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} : AuditInit(Trace[i].u) /\ l = i + 1 /\ lost = FALSE
TLost == lost /\ l \in DOMAIN Trace /\ E.ev # "New" /\ l' = l + 1 /\ UNCHANGED <<auvars, lost>>
TNext == TInitH \/ TAudit \/ TGet \/ TLost
TSpec == TInit /\ [][TNext]_tvars
TraceInv == Linear /\ Serves
==============================================================================
