------------------------------ MODULE MCClient ------------------------------
(* All answers that differ from a plausible one in at most one way, over a    *)
(* small universe of honest, forked and otherwise bad histories.              *)
EXTENDS Client, TLC, Json, Randomization

CONSTANTS MCNames, MCKeys, Universe, Wide

VARIABLES
  chain,   \* the trusted STRs so far
  acc,     \* per name: the accepted answer that binds the client last
  op

T(a, b) == [n \in MCNames |-> IF n = "n1" THEN a ELSE b]
Str(ep, pe, ph, tree, share, vrf, signer) ==
  [ep |-> ep, pe |-> pe, ph |-> ph, tree |-> tree, share |-> share, vrf |-> vrf, signer |-> signer]

Universes == <<
  \* 1 -> 2 -> 5 and the fork 1 -> 3 -> 6; 4 is signed by somebody else
  <<Str(0, 0, 0, T("", ""), 1, 1, 1),
    Str(1, 0, 1, T("k1", ""), 2, 1, 1),
    Str(1, 0, 1, T("k2", ""), 3, 1, 1),
    Str(1, 0, 1, T("k1", ""), 2, 1, 2),
    Str(2, 1, 2, T("k1", "k2"), 5, 1, 1),
    Str(2, 1, 3, T("", "k1"), 6, 1, 1)>>,
  \* skipped epochs, a wrong previous epoch, a link to a fork, the same tree
  \* twice, another VRF key
  <<Str(3, 2, 0, T("k1", ""), 1, 1, 1),
    Str(4, 3, 1, T("k1", ""), 1, 1, 1),
    Str(5, 3, 1, T("k1", "k1"), 3, 1, 1),
    Str(4, 2, 1, T("k1", "k1"), 4, 1, 1),
    Str(5, 4, 4, T("k2", "k2"), 5, 1, 1),
    Str(4, 3, 1, T("k2", "k1"), 6, 2, 1),
    Str(5, 4, 6, T("k1", "k2"), 7, 1, 1)>> >>
MCU == Universes[Universe]

Ids == DOMAIN MCU

AllAnswers == Plausible(MCNames, MCKeys) \cup
  (IF Wide THEN UNION {Changed(r, MCNames) : r \in Plausible(MCNames, MCKeys)} ELSE {})

InitAll == /\ ClientInit(MCU, MCNames)
           /\ chain = <<1>> /\ acc = [n \in MCNames |-> NoAnswer]
           /\ op = [x \in {} |-> 0]

Step(r) ==
  /\ Handle(r)
  /\ chain' = IF v' = v THEN chain ELSE Append(chain, v')
  /\ acc' = IF last'.ok THEN [acc EXCEPT ![r.n] = last'] ELSE acc
  /\ op' = r

MCNext == \E r \in AllAnswers : Step(r)
MCSpec == InitAll /\ [][MCNext]_<<clvars, chain, acc, op>>
MCView == <<v, keys, tbs, chain, acc>>

-----------------------------------------------------------------------------
\* C01: the trusted STRs are one signed, linked chain
OneChain == /\ \A i \in 2..Len(chain) : Linked(chain[i - 1], chain[i]) /\ U[chain[i]].signer = Pinned
            /\ v = chain[Len(chain)]
\* C04: accepted answers carry the expected key, which is then remembered
Remember == /\ (last.ok /\ last.key # "") => (keys[last.n] = last.key /\ last.exp \in {"", last.key})
            /\ \A n \in MCNames : keys[n] = "" <=> acc[n].key = "" /\ keys[n] = ""
KeysKept == [][\A n \in MCNames : (keys'[n] # keys[n]) => (last'.ok /\ last'.n = n /\ last'.key = keys'[n])]_MCView
\* C05: after a promise, the next accepted answer about the name repeats or
\* fulfils it
PromiseKept ==
  [][\A n \in MCNames :
       (last'.ok /\ last'.n = n /\ acc[n].kind = "tb") =>
         \/ last'.kind = "tb" /\ last'.s = acc[n].s /\ last'.key = acc[n].key
         \/ last'.kind = "incl" /\ last'.key = acc[n].key
         \/ last'.kind = "abs" /\ Odd(op')
    ]_<<clvars, chain, acc, op>>
\* C02/M02: under one trusted STR accepted proofs agree
SameEpoch ==
  [][\A n \in MCNames :
       (last'.ok /\ last'.n = n /\ acc[n].ok /\ acc[n].s = last'.s) =>
         ((acc[n].kind = "incl") <=> (last'.kind = "incl"))
         /\ (acc[n].kind = "incl" => acc[n].key = last'.key)
    ]_<<clvars, chain, acc, op>>
TypeOK == v \in Ids

-----------------------------------------------------------------------------
\* C06: two clients that both agree with one auditor's range do not disagree,
\* except that one of them may be an epoch behind
Ranges == UNION {[1..k -> [s : Ids, m : {"none"}]] : k \in 1..3}
AgreeWith(a, rng) == ChainOf(Pinned, rng) /\ Fits(Pinned, a, rng[Len(rng)])
NoEquivocation ==
  \A a, b \in {x \in Ids : U[x].signer = Pinned} : \A rng \in Ranges :
     (AgreeWith(a, rng) /\ AgreeWith(b, rng)) =>
       \/ a \in Ancestors(b) \/ b \in Ancestors(a)
NoEquivocationHere == (Len(chain) = 1 /\ ~last.ok) => NoEquivocation

\* answers to try, for the tests
PrintAnswers ==
  /\ PrintT("UNIV\t" \o ToJson(MCU))
  /\ \A p \in RandomSubset(400, Plausible(MCNames, MCKeys)) :
       \A r \in RandomSubset(6, Changed(p, MCNames)) \cup {p} : PrintT("RESP\t" \o ToJson(r))
InitPrint == InitAll /\ PrintAnswers
GenSpec == InitPrint /\ [][MCNext]_<<clvars, chain, acc, op>>

PrintEdges ==
  IF ~last'.ok \/ UNCHANGED <<v, keys, tbs>> THEN TRUE ELSE
  PrintT("EDGE\t" \o ToJson(<<v, keys, tbs>>) \o "\t" \o ToJson(<<v', keys', tbs'>>) \o "\t" \o ToJson(op'))
=============================================================================
