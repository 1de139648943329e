----------------------------- MODULE PrefixTree -----------------------------
(* The canonical Merkle prefix tree over a set S of names.  `L' gives for two *)
(* names the length of the longest common prefix of their indices.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* as a table from the bits of the indices
RECURSIVE Common(_, _, _)
Common(x, y, i) == IF i > Len(x) \/ x[i] # y[i] THEN i - 1 ELSE Common(x, y, i + 1)
LcpOfBits(b) == [n \in DOMAIN b |-> [m \in DOMAIN b |-> Common(b[n], b[m], 1)]]

\* the names in the subtree at depth d that the search for n passes through
Under(L, n, S, d) == {m \in S : m = n \/ L[n][m] >= d}

\* depth of the node at which the search for n ends: the first one below the
\* root with at most one name in its subtree
Level(L, n, S) ==
  LET D == {1} \cup {L[n][m] + 1 : m \in S \ {n}}
      Alone(d) == Cardinality(Under(L, n, S, d)) <= 1
  IN CHOOSE d \in D : Alone(d) /\ \A e \in D : e < d => ~Alone(e)

\* the leaf found there: a name, or "" for an empty branch
LeafOf(L, n, S) ==
  LET u == Under(L, n, S, Level(L, n, S))
  IN IF u = {} THEN "" ELSE CHOOSE m \in u : TRUE
==============================================================================
