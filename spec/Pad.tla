--------------------------------- MODULE Pad ---------------------------------
(* The persistent authenticated dictionary: bindings that can be set and set  *)
(* again, snapshots at every epoch, lookups in every retained snapshot.       *)
(* Every Set makes a new commitment, identified by a version number.          *)
EXTENDS PrefixTree

VARIABLES lcp, cap, cur, tree, ver, snaps, loaded, resp
padvars == <<lcp, cap, cur, tree, ver, snaps, loaded, resp>>

PMax(a, b) == IF a > b THEN a ELSE b
NoTree == [x \in {} |-> [val |-> "", ver |-> 0]]
Nothing == [err |-> "ok", kind |-> "none", val |-> "", ver |-> 0, lvl |-> 0, leaf |-> ""]

PadInit(L, c) ==
  /\ lcp = L /\ cap = PMax(c, 1) /\ cur = 0 /\ tree = NoTree /\ ver = 0
  /\ snaps = <<NoTree>> /\ loaded = <<0>> /\ resp = Nothing

Set(n, v) ==
  /\ ver' = ver + 1
  /\ tree' = (n :> [val |-> v, ver |-> ver + 1]) @@ tree
  /\ resp' = Nothing
  /\ UNCHANGED <<lcp, cap, cur, snaps, loaded>>

Update ==
  /\ cur' = cur + 1
  /\ snaps' = Append(snaps, tree)
  /\ loaded' = Append(IF Len(loaded) = cap
                      THEN SubSeq(loaded, PMax(cap \div 2, 1) + 1, Len(loaded))
                      ELSE loaded, cur + 1)
  /\ resp' = Nothing
  /\ UNCHANGED <<lcp, cap, tree, ver>>

Proof(L, n, T) ==
  LET S == DOMAIN T
      f == LeafOf(L, n, S)
  IN [err  |-> "ok",
      kind |-> IF n \in S THEN "incl" ELSE "abs",
      val  |-> IF n \in S THEN T[n].val ELSE "",
      ver  |-> IF f = "" THEN 0 ELSE T[f].ver,   \* commitment shown
      lvl  |-> Level(L, n, S),
      leaf |-> f]

\* e <= cur
Lookup(n, e) ==
  /\ resp' = IF \E i \in DOMAIN loaded : loaded[i] = e
             THEN Proof(lcp, n, snaps[e + 1])
             ELSE [Nothing EXCEPT !.err = "evicted"]
  /\ UNCHANGED <<lcp, cap, cur, tree, ver, snaps, loaded>>

\* properties
Latest == \A n \in DOMAIN tree : tree[n].ver <= ver
Frozen == [][\A i \in DOMAIN snaps : snaps'[i] = snaps[i]]_padvars
Distinct == \A n, m \in DOMAIN tree : n # m => tree[n].ver # tree[m].ver
Answered == resp.kind = "incl" => resp.leaf # "" /\ resp.ver > 0
==============================================================================
