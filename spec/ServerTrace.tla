----------------------------- MODULE ServerTrace -----------------------------
(* Validates recorded conversations with a running server against Server.     *)
EXTENDS Server, TraceLib

VARIABLES
  l,     \* position in the trace
  pub,   \* the STRs as first seen: epoch -> [sid, root]
  kind,  \* what the history is about, i.e. which property it belongs to
  timer, \* configured epoch interval in seconds
  lost   \* the rest of the history cannot be judged

tvars == <<srvvars, l, pub, kind, timer, lost>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)

Base == CASE kind = "perm" -> {"S02"}
          [] kind = "raw" -> {"S03"}
          [] kind = "stop" -> {"S03"}
          [] kind = "timer" -> {"S04"}
          [] kind = "reload" -> {"S05"}
Serial == Base \cup {"S01"}

-----------------------------------------------------------------------------
StrOK(o, e, sn, pb) ==
  /\ C(Serial, "str.epoch", e, o.ep)
  /\ C(Serial, "str.prevepoch", Max(e - 1, 0), o.pe)
  /\ C(Serial, "str.signature", TRUE, o.sig)
  /\ C(Serial, "str.root", IF e \in DOMAIN pb THEN pb[e].root ELSE o.root, o.root)
  /\ C(Serial, "str.identity", IF e \in DOMAIN pb THEN pb[e].sid ELSE o.sid, o.sid)
  /\ C(Serial, "str.link", IF e = 0 THEN -1
                           ELSE IF (e - 1) \in DOMAIN pb THEN pb[e - 1].sid ELSE o.link, o.link)
  /\ C(Base \cup {"S05"}, "str.deadline", sn[e + 1].dl, o.dl)
  /\ C(Base \cup {"S05"}, "str.policies", TRUE, o.pol)

ApOK(o, a) ==
  /\ C(Serial, "ap.kind", a.kind, o.kind)
  /\ C(Serial, "ap.value", a.val, o.val)
  /\ C(Serial, "ap.verifies", TRUE, o.ver)
  /\ C(Serial, "ap.index", TRUE, o.idx)
  /\ C(Serial, "ap.vrf", TRUE, o.vrf)

\* which properties an unexpected status concerns
ErrProps(exp, obs) ==
  Serial
  \cup (IF "malformed" \in {exp, obs} THEN {"S02"} ELSE {})
  \cup (IF obs \in {"closed", "garbled", "several", "hang", "nodial"} THEN {"S03"} ELSE {})

AnswerOK(o, r) ==
  /\ C(ErrProps(r.err, o.err), "err", r.err, o.err)
  /\ C({"S03"} \cup Base, "slow", FALSE, o.slow)
  /\ IF r.err # o.err THEN TRUE ELSE
       /\ C(Serial, "strs", [i \in DOMAIN r.strs |-> r.strs[i]], [i \in DOMAIN o.strs |-> o.strs[i].ep])
       /\ C(Serial, "aps", Len(r.aps), Len(o.aps))
       /\ C(Serial, "extra", FALSE, o.extra)
       /\ \A i \in DOMAIN r.strs : i \in DOMAIN o.strs => StrOK(o.strs[i], r.strs[i], snaps', pub)
       /\ \A i \in DOMAIN r.aps : i \in DOMAIN o.aps => ApOK(o.aps[i], r.aps[i])
       /\ C(Serial, "tb", r.tb # "", o.tb)
       /\ IF ~o.tb \/ r.tb = "" THEN TRUE ELSE
            /\ C(Serial, "tb.value", r.tb, o.tbval)
            /\ C(Serial, "tb.index", TRUE, o.tbidx)
            /\ C(Serial, "tb.signature", TRUE, o.tbsig)

Learn(pb, o) ==
  LET new == {i \in DOMAIN o.strs : o.strs[i].ep \notin DOMAIN pb}
  IN [e \in DOMAIN pb \cup {o.strs[i].ep : i \in new} |->
        IF e \in DOMAIN pb THEN pb[e]
        ELSE LET i == CHOOSE j \in new : o.strs[j].ep = e IN [sid |-> o.strs[i].sid, root |-> o.strs[i].root]]

\* after a wrong status the server may be in another state than the model
Derailed(o, r) == \/ (r.err = "ok") # (o.err = "ok")
                  \/ Len(o.strs) # Len(r.strs)
                  \/ \E i \in DOMAIN o.strs : o.strs[i].ep # r.strs[i]

-----------------------------------------------------------------------------
\* how connections that send no request may end; most must be answered
MustAnswer == {"empty", "binary", "notjson", "truncated", "array", "number", "null", "typestring", "typefloat",
               "typelist", "trailing", "twice", "deep", "badutf8", "bom", "nobrace", "zeros", "big"}
GarbageOK(o) ==
  /\ C({"S03"}, "answer to garbage", TRUE,
       IF E.kind \in MustAnswer THEN o.got = "malformed" ELSE o.got \in {"malformed", "closed"})
  /\ C({"S03"}, "closed in time", FALSE, o.slow)

-----------------------------------------------------------------------------
TInit ==
  \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
    LET ev == Trace[i] IN
    /\ SrvInit(ev.cap, ev.dl, ev.lcp, ev.perms)
    /\ l = i + 1 /\ pub = [x \in {} |-> 0]
    /\ kind = ev.kind /\ timer = ev.timer /\ lost = FALSE
    /\ Chk(i, Base \cup {"S03", "I01"}, "starts", "ok", ev.o)

\* what the timer does in between is seen by the updates it triggers
Is(name) == l \in DOMAIN Trace /\ E.ev = name /\ ~lost /\ l' = l + 1 /\ UNCHANGED <<kind, timer>>
Judge(o) == /\ AnswerOK(o, resp')
            /\ pub' = Learn(pub, o)
            /\ lost' = Derailed(o, resp')
Ok == UNCHANGED <<pub, lost>>

TReq == Is("Req") /\ Request(E.a, E.q) /\ Judge(E.o)
TGarbage == Is("Raw") /\ Garbage(E.a) /\ GarbageOK(E.o) /\ Ok
TBegin == Is("Begin") /\ Begin(E.c, E.a, E.q) /\ Ok
TComplete == Is("Complete") /\ Complete(E.c) /\ Judge(E.o)
TDrop == /\ Is("Drop") /\ Drop(E.c)
         /\ C({"S03"}, "timed out", TRUE, E.o.got \in {"closed", "malformed"})
         /\ C({"S03"}, "closed in time", FALSE, E.o.slow)
         /\ Ok
TUpd == /\ Is("Upd") /\ up # "stopped" /\ Update /\ UNCHANGED rest
        /\ C({"S04"} \cup Base, "epoch not before the timer", FALSE, E.o.early)
        /\ C({"S04"} \cup Base, "epoch when the timer fires", FALSE, E.o.late)
        /\ Ok
TNoUpd == /\ Is("NoUpd") /\ UNCHANGED srvvars
          /\ C({"S04"} \cup Base, "epochs advance", TRUE, FALSE) /\ UNCHANGED pub /\ lost' = TRUE
TWrite == Is("Write") /\ Write(E.ok, E.dl) /\ Ok
TReload == Is("Reload") /\ Reload /\ Ok
TStop == Is("Stop") /\ Stop /\ Ok
TStopped == /\ Is("Stopped") /\ up = "stopping"
            /\ up' = "stopped" /\ open' = {} /\ UNCHANGED <<dirvars, perms, conf, due>>
            /\ C({"S03"}, "shutdown completes", TRUE, E.o.returned) /\ Ok
\* Stopped would not be possible yet
TAbandoned == /\ Is("Abandoned") /\ UNCHANGED srvvars
              /\ C({"S03"}, "shutdown waits for accepted requests", FALSE, E.c \in {x.c : x \in open}) /\ Ok
TAfter == /\ Is("After") /\ UNCHANGED srvvars
          /\ C({"S04"}, "no epoch after shutdown", E.o.before, E.o.after) /\ Ok
TSpoiled == Is("Spoiled") /\ UNCHANGED srvvars /\ UNCHANGED pub /\ lost' = TRUE

\* the process died, or the race detector spoke
Ends == {"Crash", "Race"}
TCrash == /\ l \in DOMAIN Trace /\ E.ev \in Ends /\ l' = l + 1
          /\ UNCHANGED <<srvvars, pub, kind, timer>>
          /\ C(IF E.ev = "Race" THEN {"S01"} ELSE Serial \cup {"S03"}, E.ev, "none", E.o) /\ lost' = TRUE
TLost == /\ lost /\ l \in DOMAIN Trace /\ E.ev \notin Ends \cup {"New"} /\ l' = l + 1
         /\ UNCHANGED <<srvvars, pub, kind, timer, lost>>

TNext == TReq \/ TGarbage \/ TBegin \/ TComplete \/ TDrop \/ TUpd \/ TNoUpd \/ TWrite \/ TReload
         \/ TStop \/ TStopped \/ TAbandoned \/ TAfter \/ TSpoiled \/ TCrash \/ TLost
TSpec == TInit /\ [][TNext]_tvars
TraceInv == Linear /\ Faithful /\ AppendOnly /\ Promises /\ TBOnlyPending /\ Retention
==============================================================================
