------------------------------- MODULE RawTree -------------------------------
(* Merkle prefix trees with arbitrary indices, and their clones.              *)
EXTENDS PrefixTree
VARIABLES lcp, trees, ver, resp
rawvars == <<lcp, trees, ver, resp>>
NoTree == [x \in {} |-> [val |-> "", ver |-> 0]]
Nothing == [kind |-> "none", val |-> "", ver |-> 0, lvl |-> 0, leaf |-> ""]
RawInit(L) == lcp = L /\ trees = <<NoTree>> /\ ver = 0 /\ resp = Nothing
Set(t, n, v) ==
  /\ ver' = ver + 1
  /\ trees' = [trees EXCEPT ![t] = (n :> [val |-> v, ver |-> ver + 1]) @@ @]
  /\ resp' = Nothing /\ UNCHANGED lcp
Clone(t) ==
  /\ trees' = Append(trees, trees[t]) /\ resp' = Nothing /\ UNCHANGED <<lcp, ver>>
Get(t, n) ==
  LET T == trees[t]
      S == DOMAIN T
      f == LeafOf(lcp, n, S)
  IN /\ resp' = [kind |-> IF n \in S THEN "incl" ELSE "abs",
                 val  |-> IF n \in S THEN T[n].val ELSE "",
                 ver  |-> IF f = "" THEN 0 ELSE T[f].ver,
                 lvl  |-> Level(lcp, n, S),
                 leaf |-> f]
     /\ UNCHANGED <<lcp, trees, ver>>
\* a clone and its origin do not affect each other
Independent == [][\E t \in DOMAIN trees : \A u \in DOMAIN trees \ {t} : trees'[u] = trees[u]]_rawvars
==============================================================================
