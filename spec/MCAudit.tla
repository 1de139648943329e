------------------------------ MODULE MCAudit ------------------------------
(* Two directories with forks and bad STRs; every range of up to three STRs.  *)
EXTENDS AuditLog, TLC, Json, Randomization
CONSTANTS MaxRange, AllMuts
VARIABLE op

T == [n \in {"n1"} |-> ""]
Str(ep, pe, ph, signer, id) == [ep |-> ep, pe |-> pe, ph |-> ph, tree |-> T, share |-> id, vrf |-> 1, signer |-> signer]
MCU == << Str(0, 0, 0, 1, 1), Str(0, 0, 0, 2, 2), Str(1, 0, 1, 1, 3), Str(1, 0, 1, 1, 4),
          Str(2, 1, 3, 1, 5), Str(2, 0, 3, 1, 6), Str(1, 0, 2, 2, 7), Str(1, 0, 2, 1, 8),
          Str(3, 2, 5, 1, 9), Str(2, 1, 7, 2, 10) >>
Muts == IF AllMuts THEN StrMuts ELSE {"sig"}
Elems == [s : DOMAIN MCU, m : {"none"} \cup Muts]
Clean(k) == [1..k -> [s : DOMAIN MCU, m : {"none"}]]
\* at most one altered STR
Ranges == UNION {Clean(k) \cup UNION {{[r EXCEPT ![j].m = x] : x \in Muts} : r \in Clean(k), j \in 1..k} : k \in 1..MaxRange}

Inits == {<<>>} \cup {<<[s |-> i, m |-> "none"]>> : i \in {1, 2, 3}}
         \cup {<<[s |-> 1, m |-> "none"], [s |-> 3, m |-> "none"]>>, <<[s |-> 2, m |-> "none"], [s |-> 7, m |-> "none"], [s |-> 10, m |-> "none"]>>}

MCInit == AuditInit(MCU) /\ op = [op |-> "New", u |-> MCU]
MCNext ==
  \/ \E r \in Inits : InitHistory(IF r = <<>> THEN 1 ELSE U[r[1].s].signer, r)
        /\ op' = [op |-> "Init", key |-> IF r = <<>> THEN 1 ELSE U[r[1].s].signer, rng |-> r]
  \/ \E i \in {x \in DOMAIN log : Known(x)}, r \in Ranges : Audit(i, "whole", r) /\ op' = [op |-> "Audit", i |-> i, shape |-> "whole", rng |-> r]
  \/ \E i \in {0, 1, 2, 3}, s, e \in 0..4 : GetObserved(i, s, e) /\ op' = [op |-> "Get", i |-> i, s |-> s, e |-> e]
MCSpec == MCInit /\ [][MCNext]_<<auvars, op>>
MCView == log
\* ranges to try, for the tests
PrintRanges ==
  \A r \in UNION {Clean(k) : k \in 1..2} \cup UNION {{[r EXCEPT ![j].m = x] : x \in StrMuts} : r \in Clean(1), j \in {1}}
           \cup RandomSubset(300, UNION {{[r EXCEPT ![j].m = x] : x \in StrMuts} : r \in Clean(2), j \in 1..2})
           \cup RandomSubset(200, Ranges) : PrintT("RANGE\t" \o ToJson(r))
GenSpec == MCInit /\ PrintT("UNIV\t" \o ToJson(MCU)) /\ PrintRanges /\ [][MCNext]_<<auvars, op>>
PrintEdges ==
  IF UNCHANGED MCView THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(MCView) \o "\t" \o ToJson(MCView') \o "\t" \o ToJson(op'))
=============================================================================
