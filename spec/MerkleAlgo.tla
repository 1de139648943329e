----------------------------- MODULE MerkleAlgo -----------------------------
(* The insertion algorithm with its cached hashes, as implemented, refines    *)
(* the canonical tree: for every order of insertions, replacements and        *)
(* snapshots the root computed from the caches is the canonical root, and     *)
(* the path found by a lookup is the one of the canonical tree.               *)
(* Hashes are symbolic: the hash of a node is the term it is computed from.   *)
EXTENDS PrefixTree
CONSTANTS Names, MaxVer, Width
VARIABLES bits, node, ver, bind, root, clone
vars == <<bits, node, ver, bind, root, clone>>

Nil == <<"nil">>
Leaf(n, v, d) == [t |-> "L", n |-> n, v |-> v, d |-> d]
Empty(p) == [t |-> "E", p |-> p]
Inner(l, r, lh, rh) == [t |-> "I", l |-> l, r |-> r, lh |-> lh, rh |-> rh]
Fresh(p) == Inner(Empty(Append(p, 0)), Empty(Append(p, 1)), Nil, Nil)

\* insert leaf n (version v) below x, a node at depth d
RECURSIVE Ins(_, _, _, _)
Ins(x, n, v, d) ==
  IF x.t = "L" THEN
    IF x.n = n THEN Leaf(n, v, x.d)
    ELSE LET f == Fresh(SubSeq(bits[n], 1, d))
             g == IF bits[x.n][d + 1] = 1 THEN [f EXCEPT !.r = Leaf(x.n, x.v, d + 1)]
                                          ELSE [f EXCEPT !.l = Leaf(x.n, x.v, d + 1)]
         IN Ins(g, n, v, d)
  ELSE IF bits[n][d + 1] = 1
       THEN [x EXCEPT !.rh = Nil, !.r = IF @.t = "E" THEN Leaf(n, v, d + 1) ELSE Ins(@, n, v, d + 1)]
       ELSE [x EXCEPT !.lh = Nil, !.l = IF @.t = "E" THEN Leaf(n, v, d + 1) ELSE Ins(@, n, v, d + 1)]

\* fill the caches; the hash of an inner node is the pair of its children's
RECURSIVE Fill(_), Hash(_)
Hash(x) == IF x.t = "L" THEN <<"L", x.n, x.v, x.d>>
           ELSE IF x.t = "E" THEN <<"E", x.p, Len(x.p)>>
           ELSE <<"I", IF x.lh = Nil THEN Hash(x.l) ELSE x.lh, IF x.rh = Nil THEN Hash(x.r) ELSE x.rh>>
Fill(x) == IF x.t # "I" THEN x
           ELSE LET l == IF x.lh = Nil THEN Fill(x.l) ELSE x.l
                    r == IF x.rh = Nil THEN Fill(x.r) ELSE x.r
                IN Inner(l, r, IF x.lh = Nil THEN Hash(l) ELSE x.lh, IF x.rh = Nil THEN Hash(r) ELSE x.rh)

\* the canonical tree over the bindings
RECURSIVE Canon(_, _, _)
Canon(b, S, p) ==
  IF Len(p) > 0 /\ S = {} THEN <<"E", p, Len(p)>>
  ELSE IF Len(p) > 0 /\ Cardinality(S) = 1 THEN LET n == CHOOSE m \in S : TRUE IN <<"L", n, b[n], Len(p)>>
  ELSE <<"I", Canon(b, {n \in S : bits[n][Len(p) + 1] = 0}, Append(p, 0)),
              Canon(b, {n \in S : bits[n][Len(p) + 1] = 1}, Append(p, 1))>>

RECURSIVE Find(_, _, _)
Find(x, n, d) == IF x.t = "I" THEN Find(IF bits[n][d + 1] = 1 THEN x.r ELSE x.l, n, d + 1) ELSE <<x, d>>

Distinct(b) == \A n, m \in DOMAIN b : n # m => b[n] # b[m]
Init == /\ bits \in {b \in [Names -> [1..Width -> {0, 1}]] : Distinct(b)}
        /\ node = Fresh(<<>>) /\ ver = 0 /\ bind = [x \in {} |-> 0] /\ root = Nil /\ clone = Fresh(<<>>)
Set(n) == /\ ver < MaxVer /\ ver' = ver + 1
          /\ node' = Ins(node, n, ver + 1, 0) /\ bind' = (n :> ver + 1) @@ bind
          /\ UNCHANGED <<bits, root, clone>>
Snapshot == /\ node' = Fill(node) /\ root' = Hash(node') /\ clone' = node'
            /\ UNCHANGED <<bits, ver, bind>>
Next == Snapshot \/ \E n \in Names : Set(n)
Spec == Init /\ [][Next]_vars

\* right after a snapshot: root and clone are those of the canonical tree
RootCanonical == (clone = node /\ root # Nil) => root = Canon(bind, DOMAIN bind, <<>>)
AlwaysCanonical == Hash(node) = Canon(bind, DOMAIN bind, <<>>)
LookupCanonical ==
  \A n \in Names :
    LET f == Find(node, n, 0)
        L == LcpOfBits(bits)
        S == DOMAIN bind
    IN /\ f[2] = Level(L, n, S)
       /\ (f[1].t = "L") = (LeafOf(L, n, S) # "")
       /\ f[1].t = "L" => f[1].n = LeafOf(L, n, S) /\ f[1].d = f[2] /\ f[1].v = bind[f[1].n]
       /\ f[1].t = "E" => f[1].p = SubSeq(bits[n], 1, f[2])
==============================================================================
