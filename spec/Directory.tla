------------------------------ MODULE Directory ------------------------------
(* The CONIKS key directory: registrations, temporary bindings (TBs), signed  *)
(* tree roots (STRs) with retained snapshots, delayed policy changes, and the *)
(* answer to every kind of request.  One action per public operation of the   *)
(* directory; `resp' is the answer the operation has to give.                 *)
(*                                                                            *)
(* An STR is identified by its epoch: `snaps[e+1]' is everything that the STR *)
(* of epoch e commits to.  Which bytes realise an STR is left to the trace    *)
(* specification, which checks that it is always the same ones.               *)
EXTENDS PrefixTree

VARIABLES
  cap,     \* number of snapshots the directory is allowed to retain
  lcp,     \* names -> common prefix length of their private indices
  cur,     \* latest epoch
  tree,    \* the mutable tree: name -> key
  tbs,     \* temporary bindings issued in this epoch: name -> key
  snaps,   \* published snapshots, never forgotten by the specification
  loaded,  \* epochs of the snapshots that are still retained, oldest first
  pol,     \* the epoch deadline in the directory's current policies
  ad,      \* the epoch deadline the next STR will carry
  resp     \* the answer given by the last operation

dirvars == <<cap, lcp, cur, tree, tbs, snaps, loaded, pol, ad, resp>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NoBindings == [x \in {} |-> ""]

-----------------------------------------------------------------------------
(* Answers                                                                   *)

TreeAt(e) == snaps[e + 1].tree

\* the authentication path for name n in the snapshot of epoch e
AP(n, e) ==
  LET S == DOMAIN TreeAt(e)
      in == n \in S
  IN [ep   |-> e,
      kind |-> IF in THEN "incl" ELSE "abs",
      val  |-> IF in THEN TreeAt(e)[n] ELSE "",
      lvl  |-> Level(lcp, n, S),
      leaf |-> LeafOf(lcp, n, S)]

Included(n) == n \in DOMAIN TreeAt(cur)
Retained(e) == \E i \in DOMAIN loaded : loaded[i] = e
Epochs(s, e) == [i \in 1..(e - s + 1) |-> s + i - 1]

Answer(err, aps, strs, tb) ==
  [err |-> err, aps |-> aps, strs |-> strs, tb |-> tb]
Refuse(err) == Answer(err, <<>>, <<>>, "")
Current(err, n, tb) == Answer(err, <<AP(n, cur)>>, <<cur>>, tb)

-----------------------------------------------------------------------------

DirInit(c, d, b) ==
  /\ cap = Max(c, 1)
  /\ lcp = b
  /\ cur = 0
  /\ tree = NoBindings
  /\ tbs = NoBindings
  /\ snaps = <<[tree |-> NoBindings, dl |-> d]>>
  /\ loaded = <<0>>
  /\ pol = d
  /\ ad = d
  /\ resp = Answer("none", <<>>, <<>>, "")

Quiet == UNCHANGED <<cap, lcp, cur, tree, tbs, snaps, loaded, pol, ad>>

Register(n, k) ==
  IF n = "" \/ k = "" THEN
    /\ resp' = Refuse("malformed")
    /\ Quiet
  ELSE IF Included(n) THEN
    /\ resp' = Current("existed", n, "")
    /\ Quiet
  ELSE IF n \in DOMAIN tbs THEN
    /\ resp' = Current("existed", n, tbs[n])
    /\ Quiet
  ELSE
    /\ resp' = Current("ok", n, k)
    /\ tree' = (n :> k) @@ tree
    /\ tbs' = (n :> k) @@ tbs
    /\ UNCHANGED <<cap, lcp, cur, snaps, loaded, pol, ad>>

KeyLookup(n) ==
  /\ Quiet
  /\ resp' = IF n = "" THEN Refuse("malformed")
             ELSE IF Included(n) THEN Current("ok", n, "")
             ELSE IF n \in DOMAIN tbs THEN Current("ok", n, tbs[n])
             ELSE Current("notfound", n, "")

KeyLookupInEpoch(n, e) ==
  /\ Quiet
  /\ resp' = IF n = "" \/ e > cur THEN Refuse("malformed")
             ELSE IF ~Retained(e) THEN Refuse("errdir")
             ELSE Answer(IF n \in DOMAIN TreeAt(e) THEN "ok" ELSE "notfound",
                         <<AP(n, e)>>, Epochs(e, cur), "")

Monitor(n, s, e) ==
  /\ Quiet
  /\ resp' = IF n = "" \/ s > cur \/ s > e THEN Refuse("malformed")
             ELSE LET eps == Epochs(s, Min(e, cur))
                  IN IF \E i \in DOMAIN eps : ~Retained(eps[i])
                     THEN Refuse("errdir")
                     ELSE Answer("ok", [i \in DOMAIN eps |-> AP(n, eps[i])],
                                 eps, "")

STRHistory(s, e) ==
  /\ Quiet
  /\ resp' = IF s > cur \/ s > e THEN Refuse("malformed")
             ELSE LET eps == Epochs(s, Min(e, cur))
                  IN IF \E i \in DOMAIN eps : ~Retained(eps[i])
                     THEN Refuse("errdir")
                     ELSE Answer("ok", <<>>, eps, "")

Evicted == IF Len(loaded) = cap
           THEN SubSeq(loaded, Max(cap \div 2, 1) + 1, Len(loaded))
           ELSE loaded

Update ==
  /\ cur' = cur + 1
  /\ snaps' = Append(snaps, [tree |-> tree, dl |-> ad])
  /\ loaded' = Append(Evicted, cur + 1)
  /\ ad' = pol
  /\ tbs' = NoBindings
  /\ resp' = Answer("ok", <<>>, <<cur + 1>>, "")
  /\ UNCHANGED <<cap, lcp, tree, pol>>

SetPolicies(d) ==
  /\ pol' = d
  /\ resp' = Answer("ok", <<>>, <<cur>>, "")
  /\ UNCHANGED <<cap, lcp, cur, tree, tbs, snaps, loaded, ad>>

-----------------------------------------------------------------------------
(* The properties                                                            *)

\* D01: one snapshot per epoch; published snapshots never change
Linear == Len(snaps) = cur + 1
Immutable == [][\A i \in DOMAIN snaps : snaps'[i] = snaps[i]]_dirvars

\* D02: answers tell what is in the snapshot they name
Faithful ==
  \A i \in DOMAIN resp.aps :
    LET a == resp.aps[i] IN
    /\ a.ep \in {resp.strs[j] : j \in DOMAIN resp.strs}
    /\ (a.kind = "incl") => (a.leaf # "" /\ TreeAt(a.ep)[a.leaf] = a.val)
    /\ (a.kind = "abs") => a.val = ""

\* D03: append-only
AppendOnly ==
  /\ \A i \in 1..cur : \A n \in DOMAIN snaps[i].tree :
       /\ n \in DOMAIN snaps[i + 1].tree
       /\ snaps[i + 1].tree[n] = snaps[i].tree[n]
  /\ \A n \in DOMAIN TreeAt(cur) : n \in DOMAIN tree /\ tree[n] = TreeAt(cur)[n]

\* D04: promises are exactly the pending bindings ...
Promises ==
  /\ DOMAIN tbs = DOMAIN tree \ DOMAIN TreeAt(cur)
  /\ \A n \in DOMAIN tbs : tree[n] = tbs[n]
\* ... and are fulfilled by the next snapshot
Fulfilled ==
  [][cur' # cur => \A n \in DOMAIN tbs : /\ n \in DOMAIN snaps'[cur' + 1].tree
                                         /\ snaps'[cur' + 1].tree[n] = tbs[n]
    ]_dirvars
TBOnlyPending == resp.tb # "" => \E n \in DOMAIN tbs : tbs[n] = resp.tb

\* D06
Retention ==
  /\ Len(loaded) \in 1..cap
  /\ loaded[Len(loaded)] = cur
  /\ \A i \in 1..(Len(loaded) - 1) : loaded[i + 1] = loaded[i] + 1
  /\ \A i \in DOMAIN resp.strs : Retained(resp.strs[i])
EvictOnlyIfFull ==
  [][loaded' # loaded =>
       (Len(loaded) < cap => \A i \in DOMAIN loaded : loaded'[i] = loaded[i])
    ]_dirvars

\* D07
PolicyDelay == [][cur' # cur => snaps'[cur' + 1].dl = ad /\ ad' = pol]_dirvars
==============================================================================
