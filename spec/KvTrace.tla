------------------------------- MODULE KvTrace -------------------------------
(* Validates recorded executions of the key-value store against Kv, KvRange.  *)
EXTENDS Kv, KvRange, TraceLib
VARIABLES l, lost
tvars == <<kvvars, l, lost>>
E == Trace[l]
C(props, field, exp, obs) == Chk(l, props, field, exp, obs)
KK == {"K01"}
KR == {"K02"}
Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
PairsOf(s) == {<<s[i].k, s[i].v>> : i \in DOMAIN s}
\* what was recovered from an image of the disk: an error, or a map
Img(r) == [err |-> r.err, m |-> PairsOf(r.m)]
Ok(m) == [err |-> "", m |-> Pairs(m)]
TInit == \E i \in {j \in DOMAIN Trace : Trace[j].ev = "New"} : KvInit /\ l = i + 1 /\ lost = FALSE
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1
Skip == UNCHANGED <<kvvars, lost>>
\* the images taken before the write returned, and after
Images(m, m2) ==
  /\ C(KK, "recovered from a crash during the write", {}, {Img(E.o.during[i]) : i \in DOMAIN E.o.during} \ {Ok(m), Ok(m2)})
  /\ C(KK, "recovered from a crash after the write", {}, {Img(E.o.after[i]) : i \in DOMAIN E.o.after} \ {Ok(m2)})
TWrite ==
  /\ IsEvent("Write") /\ Write(E.ops) /\ UNCHANGED lost
  /\ lost \/ (C(KK, "write", "", E.o.err) /\ Images(map, map'))
TGet == /\ IsEvent("Get") /\ Skip
        /\ lost \/ C(KK, "get", Found(map, E.k), [ok |-> E.o.ok, v |-> E.o.v])
\* all keys that were ever used, read one by one
TDump == /\ IsEvent("Dump") /\ Skip
         /\ lost \/ C(KK, "contents", Pairs(map), PairsOf(E.o.m))
TReopen == /\ IsEvent("Reopen") /\ Reopen /\ UNCHANGED lost
           /\ lost \/ (C(KK, "reopen", "", E.o.err) /\ C(KK, "contents after reopening", Pairs(map), PairsOf(E.o.m)))
TCrash ==
  /\ IsEvent("Crash")
  /\ LET got == Img(E.o)
         fits == {m \in IF E.during THEN {map, old} ELSE {map} : Ok(m) = got}
     IN IF lost THEN Skip
        ELSE /\ C(KK, "recovered from a crash", TRUE, fits # {})
             /\ IF fits # {} THEN map' \in fits /\ UNCHANGED lost
                ELSE map' = map /\ lost' = TRUE
             /\ old' = map'
Entries(s) == [i \in DOMAIN s |-> [k |-> s[i].k, v |-> s[i].v]]
TScan ==
  /\ IsEvent("Scan") /\ Skip
  /\ lost \/ (/\ C(KR, "iterator error", "", E.o.err)
              /\ C(KR, "scanned", Scan(map, E.s, E.e), Entries(E.o.es)))
TPrefix ==
  /\ IsEvent("Prefix") /\ Skip
  /\ C(KR, "start", E.p, E.o.start)
  /\ C(KR, "limit", Above(E.p), E.o.limit)
  /\ C(KR, "incremented", Above(E.p), E.o.inc)
  /\ C(KR, "prefix unchanged", TRUE, E.o.same)
  /\ lost \/ (/\ C(KR, "iterator error", "", E.o.err)
              /\ C(KR, "scanned prefix", Scan(map, E.p, Above(E.p)), Entries(E.o.es))
              /\ C(KR, "keys with the prefix", {k \in DOMAIN map : HasPrefix(k, E.p)}, {E.o.es[i].k : i \in DOMAIN E.o.es}))
RECURSIVE Walk(_, _, _)
Walk(es, pos, ws) ==
  IF ws = <<>> THEN <<>>
  ELSE LET q == Move(pos, Len(es), Head(ws))
       IN <<IF On(q, Len(es)) THEN [ok |-> TRUE, k |-> es[q].k, v |-> es[q].v]
            ELSE [ok |-> FALSE, k |-> <<>>, v |-> ""]>> \o Walk(es, q, Tail(ws))
Steps(s) == [i \in DOMAIN s |-> [ok |-> s[i].ok, k |-> s[i].k, v |-> s[i].v]]
TWalk == /\ IsEvent("Walk") /\ Skip
         /\ lost \/ C(KR, "walked", Walk(Scan(map, E.p, Above(E.p)), 0, E.ws), Steps(E.o.es))
\* a database that was opened: was its manifest on stable storage when it was put to use
TOpened == IsEvent("Opened") /\ Skip /\ C(KK, "manifest forced out before its use", TRUE, E.o.forced)
TNext == TOpened \/ TWrite \/ TGet \/ TDump \/ TReopen \/ TCrash \/ TScan \/ TPrefix \/ TWalk
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
