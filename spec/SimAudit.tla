------------------------------ MODULE SimAudit ------------------------------
(* Random operations on an audit log over random universes.                   *)
EXTENDS AuditLog, SimChains, Json
CONSTANTS Size, Universes, Depth
VARIABLE hist
NoTree == [n \in {"n1"} |-> ""]
Roots == <<First(0, NoTree, 1), [First(0, NoTree, 2) EXCEPT !.share = 2], [First(0, NoTree, 1) EXCEPT !.share = 3]>>

SInit == \E i \in 1..Universes : \E u \in {Grow(Roots, Size, {"k1"}, {"n1"}, 0)} :
           AuditInit(u) /\ hist = <<[op |-> "New", u |-> u]>>

Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
All == DOMAIN U
Do(o) == hist' = Append(hist, o)
Clean(sq) == [i \in DOMAIN sq |-> [s |-> sq[i], m |-> "none"]]
RECURSIVE Back(_, _)
Back(i, k) == IF k <= 1 \/ U[i].ph = 0 \/ U[i].ph >= i THEN <<i>> ELSE Append(Back(U[i].ph, k - 1), i)

\* the genuine descendants of STR i
Desc(i, key) == {j \in All : i \in Ancestors(j) /\ \A x \in Ancestors(j) : U[x].signer = key \/ x < i}
Pathway(i, j) ==   \* from i (excluded) to its descendant j
  LET RECURSIVE Up(_)
      Up(x) == IF x = i THEN <<>> ELSE Append(Up(U[x].ph), x)
  IN Up(j)

KnownOnes == {i \in All : Known(i)}
SInitH ==
  \E w \in Some(1..100), i \in Some(1..3), j \in Some(All) :
    \E r \in {IF w <= 60 THEN <<i>> ELSE IF w <= 70 THEN <<j>> ELSE IF w <= 74 THEN <<>>
              ELSE LET D == Desc(i, U[i].signer) IN
                   IF D = {} THEN <<i>> ELSE <<i>> \o Pathway(i, Pick(D))} :
      \* another key than the directory's only for an initial STR alone
      LET key == IF r = <<>> THEN 1 ELSE U[r[1]].signer IN
      InitHistory(key, Clean(r)) /\ Do([op |-> "Init", key |-> key, rng |-> Clean(r)])

SAudit ==
  \E i \in Some(KnownOnes), w \in Some(1..100), c \in Some(1..100), x \in Some(All), m \in Some(StrMuts), b \in Some(1..6), k \in Some(1..4),
     sh \in Some({"noresp", "nilresp", "proof", "nilstr", "nopol", "nostr", "malformed", "errdir", "nosigned"}) :
   \E r \in {LET D == Desc(Latest(i), log[i].key) IN
             IF w <= 60 /\ D # {} THEN (IF w % 2 = 0 THEN <<Latest(i)>> ELSE <<>>) \o Pathway(Latest(i), Pick(D))
             ELSE IF w <= 70 THEN <<Latest(i)>>
             ELSE IF w <= 80 THEN Back(Latest(i), k)
             ELSE IF w <= 97 THEN Back(x, k)
             ELSE <<>>} :
   \E q \in {LET cl == Clean(IF r = <<>> /\ w <= 97 THEN <<Latest(i)>> ELSE r) IN
             IF cl = <<>> \/ c <= 60 THEN cl
             ELSE IF c <= 74 THEN [cl EXCEPT ![1 + (b % Len(cl))].m = m]
             ELSE IF c <= 82 THEN [cl EXCEPT ![1 + (b % Len(cl))].s = x]
             ELSE IF c <= 86 THEN cl \o <<cl[Len(cl)]>>
             ELSE IF c <= 90 THEN <<cl[1]>> \o cl
             ELSE IF c <= 93 THEN SubSeq(cl, 2, Len(cl)) \o <<cl[1]>>
             ELSE cl} :
     \E shape \in {IF c >= 95 THEN sh ELSE "whole"} :
       Audit(i, shape, q) /\ Do([op |-> "Audit", i |-> i, shape |-> shape, rng |-> q])

SGet ==
  \E i \in Some({0} \cup All) : \E j \in Some(IF KnownOnes = {} THEN {i} ELSE KnownOnes \cup {i}) :
   \E L \in {IF j # 0 /\ Known(j) THEN LastEpoch(j) ELSE 1} :
   \E s \in Some((0..(L + 1)) \cup {1000000}), e \in Some((0..(L + 1)) \cup {1000000, 1000001}) :
     GetObserved(j, s, e) /\ Do([op |-> "Get", i |-> j, s |-> s, e |-> e])

SNext == \E w \in Some(1..10) :
  IF w <= 2 \/ KnownOnes = {} THEN SInitH ELSE IF w <= 7 THEN SAudit ELSE SGet
SSpec == SInit /\ [][SNext]_<<auvars, hist>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
