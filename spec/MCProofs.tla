------------------------------ MODULE MCProofs ------------------------------
(* An adversary builds tree roots and paths out of symbolic byte strings.     *)
(* Strings are sequences of bytes: literals, and the HS bytes of the hash of  *)
(* a string; hashing is injective, concatenation is not.                      *)
EXTENDS Proofs, TLC
CONSTANTS CheckShape   \* FALSE: without the checks on the shape

B(x) == <<x, <<>>, 0>>          \* a literal
Zero == B("0")
One == B("1")
Byte == {Zero, One}
Zeros == [i \in 1..HS |-> Zero]
Ones == [i \in 1..HS |-> One]
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, b) : s \in Strings(n - 1), b \in Byte}
StringsTo(n) == UNION {Strings(i) : i \in 0..n}
H(s) == [i \in 1..HS |-> <<"h", s, i>>]

\* names are bytes strings; the index of a name is fixed by the VRF
Name == <<B("a")>>
Index == [i \in 1..HS |-> IF i % 2 = 1 THEN One ELSE Zero]        \* one bit per byte
LevelByte(l) == <<B(<<"l0", "l1", "l2">>[l + 1])>>
Nil == <<B("nil")>>

LeafHash(ap) ==
  IF ap.empty THEN H(<<B("E")>> \o ap.nonce \o ap.idx \o LevelByte(ap.lvl))
              ELSE H(<<B("L")>> \o ap.nonce \o ap.idx \o LevelByte(ap.lvl) \o ap.cval)
RECURSIVE Fold(_, _, _)
Fold(ap, h, d) ==
  IF d = 0 THEN h
  ELSE Fold(ap, IF ap.idx[d] = One THEN H(ap.sib[d] \o h) ELSE H(h \o ap.sib[d]), d - 1)
Foldable(ap) == Len(ap.idx) >= ap.lvl /\ Len(ap.sib) >= ap.lvl
Root(ap) == IF Foldable(ap) THEN Fold(ap, LeafHash(ap), ap.lvl) ELSE <<>>

RECURSIVE Agree(_, _, _)
Agree(x, y, i) == IF i > Len(x) \/ i > Len(y) THEN i - 1 ELSE IF x[i] # y[i] THEN i - 1 ELSE Agree(x, y, i + 1)

\* the facts that hold of ap as a proof for Name under its own root
Facts(ap) ==
  [leaf |-> TRUE, empty |-> ap.empty, com |-> ap.com, same |-> ap.idx = Index,
   vnil |-> ap.value = Nil, veq |-> TRUE,
   opens |-> ap.cval = H(ap.salt \o Name \o ap.value), root |-> Foldable(ap),
   nonce |-> Len(ap.nonce), sib |-> Len(ap.sib), lvl |-> ap.lvl, lookup |-> Len(Index),
   ilen |-> Len(ap.idx), clen |-> Len(ap.cval), slen |-> Len(ap.salt),
   match |-> Agree(ap.idx, Index, 1)]

\* what the code relied on before the shape was checked
Loose(f) == /\ IF f.same THEN f.veq /\ f.opens ELSE f.match >= f.lvl /\ f.vnil
            /\ f.root
Accepted(ap) == IF CheckShape THEN Accept(Facts(ap)) ELSE Loose(Facts(ap))
Answer(ap) == IF ap.idx = Index THEN [k |-> "incl", v |-> ap.value] ELSE [k |-> "abs", v |-> <<>>]

\* the adversary's material
Salts == {Zeros, Zeros \o Name \o <<Zero>>, <<Zero>>}
Values == {<<Zero>>, <<One>>, <<Zero>> \o Name \o <<One>>}
Opened == H(Zeros \o Name \o <<Zero>>)
Tails == {<<One>>, Ones, Opened}
OtherIndices == {<<One>> \o [i \in 1..(HS - 1) |-> Zero], Zeros, Ones}
FullIndices == {Index} \cup OtherIndices
Deep == H(<<B("deeper")>>)
Siblings == {<<>>, <<Deep>>, <<Deep, Deep>>}
\* nonces and commitments that hide an index, a level and a commitment
NonceSet == StringsTo(1) \cup {Zeros}
            \cup {x \o LevelByte(1) \o c : x \in FullIndices, c \in Tails}
CommitSet == Tails \cup {c \o x \o LevelByte(1) \o d : c \in Tails, x \in FullIndices, d \in {Ones, Opened}}

Path(nonce, idx, lvl, sib, empty, com, cval, salt, value) ==
  [nonce |-> nonce, idx |-> idx, lvl |-> lvl, sib |-> sib, empty |-> empty,
   com |-> com, cval |-> cval, salt |-> salt, value |-> value]
\* an inclusion proof has to open its commitment, an absence proof shows none
PathsWith(n) ==
  {Path(n, Index, l, s, e, TRUE, H(sa \o Name \o v), sa, v) :
     l \in 1..2, s \in Siblings, e \in BOOLEAN, sa \in Salts, v \in Values}
  \cup {Path(n, i, l, s, FALSE, TRUE, c, <<Zero>>, Nil) :
     i \in OtherIndices, l \in 1..2, s \in Siblings, c \in CommitSet}
  \cup {Path(n, i, l, s, TRUE, c, Ones, <<Zero>>, Nil) :
     i \in StringsTo(HS) \cup {Index \o <<Zero>>}, l \in 0..2, s \in Siblings, c \in BOOLEAN}
Answers(n) == {<<Root(ap), Answer(ap)>> : ap \in {x \in PathsWith(n) : Accepted(x)}}

\* The adversary first chooses two nonces (possibly equal), then one path with
\* each of them; the answers possible with the first nonce are tabulated.
VARIABLES nonces, table, ap
vars == <<nonces, table, ap>>
None == <<>>
Init == nonces \in [1..2 -> NonceSet] /\ table = {} /\ ap = None
Tabulate == table = {} /\ table' = Answers(nonces[1]) /\ UNCHANGED <<nonces, ap>>
Choose == table # {} /\ ap = None /\ ap' \in PathsWith(nonces[2]) /\ UNCHANGED <<nonces, table>>
Next == Tabulate \/ Choose
Spec == Init /\ [][Next]_vars
View == <<nonces, table = {}, ap>>

\* M02: one answer per name under one root
OneAnswer == (ap # None /\ Accepted(ap)) =>
               LET r == Root(ap) IN \A p \in table : p[1] = r => p[2] = Answer(ap)
\* not vacuous: with a proper nonce there are proofs of both kinds
Both == (table # {} /\ nonces[1] = Zeros) => \A k \in {"abs", "incl"} : \E p \in table : p[2].k = k
==============================================================================
