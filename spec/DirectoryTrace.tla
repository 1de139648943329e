--------------------------- MODULE DirectoryTrace ---------------------------
(* Validates recorded executions of the real directory against Directory.     *)
EXTENDS Directory, TraceLib

VARIABLES
  l,     \* position in the trace
  pub    \* the STRs as first seen: epoch -> [sid, root]

tvars == <<dirvars, l, pub>>

E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)

-----------------------------------------------------------------------------
\* an observed STR must be the one published for the epoch
StrOK(o, e, sn, pb) ==
  /\ C({"D01", "D02", "D05"}, "str.epoch", e, o.ep)
  /\ C({"D01"}, "str.prevepoch", Max(e - 1, 0), o.pe)
  /\ C({"D01"}, "str.signature", TRUE, o.sig)
  /\ C({"D01", "D02"}, "str.root", IF e \in DOMAIN pb THEN pb[e].root ELSE o.root, o.root)
  /\ C({"D01"}, "str.identity", IF e \in DOMAIN pb THEN pb[e].sid ELSE o.sid, o.sid)
  /\ C({"D01"}, "str.link", IF e = 0 THEN -1
                            ELSE IF (e - 1) \in DOMAIN pb THEN pb[e - 1].sid ELSE o.link, o.link)
  /\ C({"D07"}, "str.deadline", sn[e + 1].dl, o.dl)
  /\ C({"D07"}, "str.policies", TRUE, o.pol)

ApOK(o, a) ==
  /\ C({"D02", "D03", "D04"}, "ap.kind", a.kind, o.kind)
  /\ C({"D02", "D03", "D04"}, "ap.value", a.val, o.val)
  /\ C({"D02", "M01"}, "ap.verifies", TRUE, o.ver)
  /\ C({"D02", "M03"}, "ap.index", TRUE, o.idx)
  /\ C({"D02", "M03"}, "ap.vrf", TRUE, o.vrf)
  /\ C({"M01"}, "ap.level", a.lvl, o.lvl)
  /\ C({"M01"}, "ap.leaf", a.leaf, o.leaf)
  /\ C({"M03"}, "ap.bare", TRUE, o.bare)

\* properties concerned by an unexpected status code
ErrProps(r, err) ==
  (IF {r.err, err} \cap {"malformed", "panic", "nil"} # {} THEN {"D05"} ELSE {})
  \cup (IF {r.err, err} \cap {"errdir"} # {} \/ (err = "panic" /\ r.err = "errdir") THEN {"D05", "D06"} ELSE {})
  \cup (IF {r.err, err} \cap {"ok", "existed", "notfound"} # {} THEN {"D02"} ELSE {})
  \cup (IF E.ev = "Reg" THEN {"D03", "D04"} ELSE {})
  \cup (IF E.ev = "Look" THEN {"D03", "D04"} ELSE {})
  \cup (IF E.ev \in {"LookEp", "Mon"} THEN {"D03"} ELSE {})

Seen(o) == [e \in {o.strs[i].ep : i \in DOMAIN o.strs} |->
              LET i == CHOOSE j \in DOMAIN o.strs : o.strs[j].ep = e
              IN [sid |-> o.strs[i].sid, root |-> o.strs[i].root]]

\* compare the observed answer with the one the specification gives
AnswerOK(o, r) ==
  /\ C(ErrProps(r, o.err), "err", r.err, o.err)
  /\ C({"M03"}, "leak", FALSE, o.leak)
  /\ IF r.err # o.err THEN TRUE ELSE
       /\ C({"D05", "D02"}, "strs", [i \in DOMAIN r.strs |-> r.strs[i]],
                          [i \in DOMAIN o.strs |-> o.strs[i].ep])
       /\ C({"D05", "D02"}, "aps", Len(r.aps), Len(o.aps))
       /\ C({"D05"}, "extra", FALSE, o.extra)
       /\ \A i \in DOMAIN r.strs :
            i \in DOMAIN o.strs => StrOK(o.strs[i], r.strs[i], snaps', pub)
       /\ \A i \in DOMAIN r.aps :
            i \in DOMAIN o.aps => ApOK(o.aps[i], r.aps[i])
       /\ C({"D04", "D03"}, "tb", r.tb # "", o.tb)
       /\ IF ~o.tb \/ r.tb = "" THEN TRUE ELSE
            /\ C({"D04", "D03"}, "tb.value", r.tb, o.tbval)
            /\ C({"D04"}, "tb.index", TRUE, o.tbidx)
            /\ C({"D04"}, "tb.signature", TRUE, o.tbsig)

\* after an update, policy change or creation: the latest STR
LatestOK(o, sn, e, pb) ==
  /\ StrOK(o.str, e, sn, pb)
  /\ C({"D01", "M01"}, "canonical root", TRUE, o.canon)
  /\ C({"M03"}, "fresh randomness", TRUE, o.fresh)
  /\ C({"D01", "D02", "D07"}, "earlier answers unchanged", TRUE, o.stable)
  /\ C({"D07"}, "deadline", sn[e + 1].dl, o.deadline)

Learn(pb, e, o) == IF e \in DOMAIN pb THEN pb
                   ELSE (e :> [sid |-> o.sid, root |-> o.root]) @@ pb

-----------------------------------------------------------------------------
TInit ==
  \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} :
    LET ev == Trace[i] IN
    /\ DirInit(ev.cap, ev.dl, ev.lcp)
    /\ l = i + 1
    /\ pub = Learn([x \in {} |-> 0], 0, ev.o.str)
    /\ Chk(i, {"D01"}, "str.link", -1, ev.o.str.link)
    /\ Chk(i, {"D01"}, "str.epoch", 0, ev.o.str.ep)
    /\ Chk(i, {"D01"}, "str.prevepoch", 0, ev.o.str.pe)
    /\ Chk(i, {"D01"}, "str.signature", TRUE, ev.o.str.sig)
    /\ Chk(i, {"D07"}, "str.deadline", ev.dl, ev.o.str.dl)
    /\ Chk(i, {"D07"}, "str.policies", TRUE, ev.o.str.pol)
    /\ Chk(i, {"D01", "M01"}, "canonical root", TRUE, ev.o.canon)
    /\ Chk(i, {"M03"}, "fresh randomness", TRUE, ev.o.fresh)
    /\ Chk(i, {"D07"}, "deadline", ev.dl, ev.o.deadline)

IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1

TReg == IsEvent("Reg") /\ Register(E.n, E.k) /\ AnswerOK(E.o, resp') /\ UNCHANGED pub
TLook == IsEvent("Look") /\ KeyLookup(E.n) /\ AnswerOK(E.o, resp') /\ UNCHANGED pub
TLookEp == IsEvent("LookEp") /\ KeyLookupInEpoch(E.n, E.e) /\ AnswerOK(E.o, resp') /\ UNCHANGED pub
TMon == IsEvent("Mon") /\ Monitor(E.n, E.s, E.e) /\ AnswerOK(E.o, resp') /\ UNCHANGED pub
THist == IsEvent("Hist") /\ STRHistory(E.s, E.e) /\ AnswerOK(E.o, resp') /\ UNCHANGED pub
TUpd == /\ IsEvent("Upd") /\ Update
        /\ LatestOK(E.o, snaps', cur', pub)
        /\ pub' = Learn(pub, cur', E.o.str)
TPol == /\ IsEvent("Pol") /\ SetPolicies(E.dl)
        /\ LatestOK(E.o, snaps', cur', pub)
        /\ UNCHANGED pub

TNext == TReg \/ TLook \/ TLookEp \/ TMon \/ THist \/ TUpd \/ TPol
TSpec == TInit /\ [][TNext]_tvars

\* the specification's own invariants are evaluated along the real traces too
TraceInv == Linear /\ Faithful /\ AppendOnly /\ Promises /\ TBOnlyPending /\ Retention
==============================================================================
