------------------------------- MODULE Client -------------------------------
(* A CONIKS client facing an arbitrary directory, network and auditor.  It    *)
(* keeps the STR it trusts, the keys it remembers and the promises (temporary *)
(* bindings) it was given; which answers may it accept, and what does it      *)
(* learn from them?                                                           *)
EXTENDS Chains

VARIABLES
  v,       \* the trusted STR
  keys,    \* remembered keys: name -> key or ""
  tbs,     \* promises: name -> [s, k] (STR it was given under, key); s = 0: none
  last     \* the last answer handled and whether it was accepted

clvars == <<U, v, keys, tbs, last>>
Pinned == 1   \* the pinned key is that of signer 1

(* An answer r has                                                            *)
(*   t "reg" or "look", n the name asked for, exp the expected key ("": none) *)
(*   err the status, shape which parts it has                                 *)
(*   s, m the STR and its alteration                                          *)
(*   pt, pn the authentication path: from the tree of STR pt, for the index   *)
(*     of name pn; pm its alteration; vn, vk name and key of the VRF proof    *)
(*   tb, tbs, tbn, tbk, tbm the temporary binding: whether there is one, the  *)
(*     STR it is signed under, name of the index, key, alteration             *)
PathMuts == {"value", "valuenil", "salt", "com", "nonce", "level", "sib", "index", "leafindex", "empty", "vrfproof", "novrf", "otherincl"}
TbMuts == {"sig", "nosig", "index", "value", "signer"}
\* shapes without a part that is needed
Missing == {"noresp", "nilresp", "noap", "nilap", "noleaf", "nostr", "nilstr", "nopol", "history", "nosigned"}
\* shapes with something in it that nothing proves
Surplus == {"ap2", "str2", "ap2same"}
Status == {"ok", "existed", "notfound"}
Refusals == {"malformed", "errdir", "erraudit"}

TheSTR(r) == [s |-> r.s, m |-> r.m]
StrFits(r) == Fits(Pinned, v, TheSTR(r))

Kind(r) == IF U[r.pt].tree[r.pn] # "" THEN "incl" ELSE "abs"
InTree(r) == U[r.pt].tree[r.pn]

PathOK(r) ==
  /\ r.pm = "none"
  /\ r.pn = r.n /\ r.vn = r.n
  /\ U[r.pt].share = U[r.s].share
  /\ r.vk = U[r.s].vrf

StatusOK(r) ==
  CASE r.t = "reg"  /\ r.err = "ok"       -> Kind(r) = "abs"
    [] r.t = "reg"  /\ r.err = "existed"  -> TRUE
    [] r.t = "look" /\ r.err = "ok"       -> TRUE
    [] r.t = "look" /\ r.err = "notfound" -> Kind(r) = "abs"
    [] OTHER -> FALSE

ReliesOnTB(r) == Kind(r) = "abs" /\ r.err # "notfound"
TbOK(r) ==
  ReliesOnTB(r) => /\ r.tb /\ r.tbm = "none"
                   /\ r.tbs = r.s /\ r.tbn = r.n

\* the key the answer gives
Given(r) == IF Kind(r) = "incl" THEN InTree(r)
            ELSE IF ReliesOnTB(r) THEN r.tbk ELSE ""
ExpOK(r) == r.exp = "" \/ Given(r) = "" \/ Given(r) = r.exp

PromiseOK(r) ==
  LET p == tbs[r.n] IN
  \/ p.s = 0
  \/ Kind(r) = "incl" /\ InTree(r) = p.k /\ U[r.s].vrf = U[p.s].vrf
  \/ Kind(r) = "abs" /\ p.s = r.s /\ r.tb /\ r.tbk = p.k /\ r.tbn = r.n /\ r.err # "notfound"

\* a name that is denied although its promise is repeated: either is fine
Odd(r) == tbs[r.n].s # 0 /\ r.err = "notfound" /\ Kind(r) = "abs" /\ tbs[r.n].s = r.s /\ r.tb

Whole(r) == r.shape = "whole"
Proven(r) == Whole(r) /\ r.err \in Status /\ StrFits(r) /\ PathOK(r) /\ StatusOK(r) /\ TbOK(r)
Accept(r) == Proven(r) /\ ExpOK(r) /\ PromiseOK(r)

Accepted(r) ==
  /\ v' = r.s
  /\ keys' = IF Given(r) = "" THEN keys ELSE [keys EXCEPT ![r.n] = Given(r)]
  \* a fulfilled promise may be forgotten
  /\ tbs' \in IF Kind(r) = "incl" THEN {[tbs EXCEPT ![r.n] = [s |-> 0, k |-> ""]], tbs}
            ELSE {IF ReliesOnTB(r) THEN [tbs EXCEPT ![r.n] = [s |-> r.s, k |-> r.tbk]]
            ELSE tbs}
  /\ last' = [ok |-> TRUE, n |-> r.n, s |-> r.s, kind |-> IF ReliesOnTB(r) THEN "tb" ELSE Kind(r),
              key |-> Given(r), exp |-> r.exp]

NoAnswer == [ok |-> FALSE, n |-> "", s |-> 0, kind |-> "", key |-> "", exp |-> ""]
\* an answer that fails may still carry a valid next STR
MayAdvance(r) == r.shape \notin Missing /\ r.err \notin Refusals /\ StrFits(r)
Rejected(r) ==
  /\ v' \in IF MayAdvance(r) THEN {v, r.s} ELSE {v}
  /\ UNCHANGED <<keys, tbs>>
  /\ last' = NoAnswer

Handle(r) == UNCHANGED U /\ IF Accept(r) THEN Accepted(r) ELSE Rejected(r)

\* comparing with an auditor's range of STRs (C06); changes nothing
EquivOK(rng) == ChainOf(Pinned, rng) /\ Fits(Pinned, v, rng[Len(rng)])

-----------------------------------------------------------------------------
(* Answers to try                                                            *)

\* everything in it from one STR
Plain(t, n, exp, err, s, tb, tbk) ==
  [t |-> t, n |-> n, exp |-> exp, err |-> err, shape |-> "whole", s |-> s, m |-> "none",
   pt |-> s, pn |-> n, pm |-> "none", vn |-> n, vk |-> U[s].vrf,
   tb |-> tb, tbs |-> s, tbn |-> n, tbk |-> IF tb THEN tbk ELSE "", tbm |-> "none"]
Plausible(N, K) ==
  {Plain(t, n, exp, err, s, tb, k) :
     t \in {"reg", "look"}, n \in N, exp \in K \cup {""},
     err \in {"ok", "existed", "notfound"}, s \in DOMAIN U, tb \in BOOLEAN, k \in K}

\* the answers that differ from r in one respect
Changed(r, N) ==
  {[r EXCEPT !.shape = x] : x \in Missing \cup Surplus}
  \cup {[r EXCEPT !.err = x] : x \in Status \cup Refusals \cup {"unknowndir", "code0", "code7", "code204"}}
  \cup {[r EXCEPT !.m = x] : x \in StrMuts}
  \cup {[r EXCEPT !.pt = x, !.vk = U[x].vrf] : x \in DOMAIN U}
  \cup {[r EXCEPT !.pn = x] : x \in N}
  \cup {[r EXCEPT !.vn = x] : x \in N}
  \cup {[r EXCEPT !.pn = x, !.vn = x] : x \in N}
  \cup {[r EXCEPT !.vk = 3 - @]}
  \cup {[r EXCEPT !.pm = x] : x \in PathMuts}
  \cup (IF r.tb THEN {[r EXCEPT !.tbs = x] : x \in DOMAIN U} \cup {[r EXCEPT !.tbn = x] : x \in N}
                     \cup {[r EXCEPT !.tbm = x] : x \in TbMuts} \cup {[r EXCEPT !.tb = FALSE]}
        ELSE {})

ClientInit(u, names) ==
  /\ U = u
  /\ v = 1
  /\ keys = [n \in names |-> ""]
  /\ tbs = [n \in names |-> [s |-> 0, k |-> ""]]
  /\ last = NoAnswer
==============================================================================
