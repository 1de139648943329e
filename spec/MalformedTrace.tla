--------------------------- MODULE MalformedTrace ---------------------------
(* Validates what the real client did with edited bytes against Malformed.    *)
EXTENDS Malformed, TraceLib
VARIABLE l
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)
ToSet(s) == {s[i] : i \in DOMAIN s}

TBytes ==
  /\ l \in DOMAIN Trace /\ E.ev = "Bytes" /\ l' = l + 1
  /\ LET lacks == ToSet(E.lacks)
         diff == ToSet(E.diff)
         \* read as a proof, a range lacks the path; read as a range, a proof is one
         a == IF E.as = "audit" THEN "equiv" ELSE E.a
         reject == MustReject(a, E.decodes, lacks, diff, E.err)
         ok == E.o.code = "ok"
         whole == E.decodes /\ lacks \cap NeededFor(a) = {}
     IN
     /\ C({"C07", "C02", "C06"}, "crash", FALSE, E.o.code \in {"panic", "hang"})
     /\ IF ok THEN C(IF a = "equiv" THEN {"C06", "C07"} ELSE IF whole THEN {"C02", "C07"} ELSE {"C07", "C02"}, "accepted", FALSE, reject) ELSE TRUE
     /\ IF ~ok /\ E.edits = <<>> /\ E.raw = <<>> THEN C({"C03"}, "genuine answer", "accepted", E.o.code) ELSE TRUE
     /\ IF MustStay(a, E.decodes, lacks, diff) THEN C({"C07", "C01"}, "trusted root", E.pre.v, E.o.v)
        ELSE C({"C01"}, "trusted root", TRUE, E.o.v \in {E.pre.v, 2})
     /\ IF ok THEN TRUE
        ELSE /\ C({"C07", "C04", "C02"}, "remembered keys", E.pre.keys, E.o.keys)
             /\ C({"C07", "C05", "C02"}, "promises", E.pre.tbs, E.o.tbs)

TInit == l = 1
TSpec == TInit /\ [][TBytes]_l
==============================================================================
