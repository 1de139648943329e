----------------------------- MODULE WireTrace ------------------------------
(* Validates what the real code encoded and decoded against Wire.             *)
EXTENDS Wire, TraceLib
VARIABLE l
E == Trace[l]
W == {"W01"}
C(field, exp, obs) == Chk(l, W, field, exp, obs)
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1
IsKind(k) == k \in {"reg", "look", "lookep", "mon"}
Same(k, t, vals, o) ==
  /\ C("kind", k, o.kind)
  /\ IF o.kind # k THEN TRUE
     ELSE /\ C("type", t, o.t)
          /\ C("fields", [f \in AllFields |-> Value(k, f, vals)], [f \in AllFields |-> o.vals[f]])
NoKind(o) == C("no kind", FALSE, IsKind(o.kind) \/ o.kind = "panic")
\* a value encoded as a request of one kind and marked with a type
TReq == /\ IsEvent("Req")
        /\ LET v == [f \in AllFields |-> IF f \in Fields(E.as) THEN E.vals[f] ELSE "missing"] IN
           IF KindOf(E.t) = "none" THEN NoKind(E.o) ELSE Same(KindOf(E.t), E.t, v, E.o)
TMsg == /\ IsEvent("Msg")
        /\ LET t == IF E.what = "reg" THEN 0 ELSE 1
               v == [f \in AllFields |-> IF f = "name" THEN E.name ELSE IF f = "key" THEN E.key ELSE "missing"]
           IN Same(KindOf(t), t, v, E.o)
TRaw == /\ IsEvent("Raw")
        /\ IF Decodable(E.tform, E.t, E.form, E.vals)
           THEN Same(KindOf(E.t), E.t, E.vals, E.o)
           \* what has more than was asked for may be refused
           ELSE IF E.form \in {"extra", "trailing"} /\ E.tform = "int" /\ IsKind(E.o.kind)
                THEN Same(KindOf(E.t), E.t, E.vals, E.o)
           ELSE IF DefaultOk(E.tform, IF E.form \in {"extra", "trailing"} THEN "obj" ELSE E.form, E.vals) /\ E.o.kind = "reg" THEN Same("reg", 0, E.vals, E.o)
           ELSE NoKind(E.o)
Parts(r) == [code |-> r.code, kind |-> r.kind, ap |-> r.ap, str |-> r.str, tb |-> r.tb]
TResp == /\ IsEvent("Resp")
         /\ C("answer", RespDecode(E.t, E.r), Parts(E.o))
         /\ IF E.r.kind = "none" \/ E.o.kind # E.r.kind THEN TRUE
            ELSE C("what verifies", E.r.checks, E.o.checks)
TBadResp == /\ IsEvent("BadResp")
            /\ C("crash", FALSE, E.o.code \in {"panic", "nil"})
            /\ IF E.how \in {"null"} THEN C("parts", [ap |-> <<>>, str |-> <<>>, tb |-> ""], [ap |-> E.o.ap, str |-> E.o.str, tb |-> E.o.tb])
               ELSE IF E.how \in {"badap", "badtb"} /\ E.t = 5 THEN TRUE
               ELSE C("undecodable", Parts([code |-> "malformed", kind |-> "none", ap |-> <<>>, str |-> <<>>, tb |-> ""]), Parts(E.o))
\* o.saved: SaveSTR's verdict; o.got: the STR read back, or an error
TPin == /\ IsEvent("Pin")
        /\ C("saved", IF E.there THEN "refused" ELSE "ok", E.o.saved)
        /\ C("left alone", TRUE, E.o.kept)
        /\ IF E.there THEN TRUE
           ELSE /\ C("loaded", IF Loads("str", E.e) THEN E.str ELSE "error", E.o.got)
                /\ C("mode", "-rw-------", E.o.mode)
                /\ IF Loads("str", E.e) THEN C("what verifies", E.checks, E.o.checks) ELSE TRUE
TBadPin == /\ IsEvent("BadPin") /\ C("loaded", "error", E.o.got)
TNext == TReq \/ TMsg \/ TRaw \/ TResp \/ TBadResp \/ TPin \/ TBadPin
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
