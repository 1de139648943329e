------------------------------ MODULE SimClient ------------------------------
(* Random answers to a client, over random universes.                         *)
EXTENDS Client, SimChains, Json
CONSTANTS SimNames, SimKeys, Size, Universes, Depth
VARIABLE hist

SInit == \E i \in 1..Universes : \E u \in {MkUniverse(i, Size, SimKeys, SimNames)} :
           /\ ClientInit(u, SimNames)
           /\ hist = <<[op |-> "New", u |-> u]>>

Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Ids == DOMAIN U
Kids == {i \in Ids : Linked(v, i) /\ U[i].signer = Pinned}
Near(w) == IF w <= 50 \/ Kids = {} THEN {v} ELSE IF w <= 92 THEN Kids ELSE Ids

Expect(w, n) == IF w <= 35 THEN {""} ELSE IF w <= 85 THEN {keys[n]} ELSE SimKeys
\* what the directory most plausibly says
TbKey(w, n, s, e) ==
  IF tbs[n].s = s /\ w <= 85 THEN {tbs[n].k} ELSE IF e # "" /\ w <= 90 THEN {e} ELSE SimKeys
Errors(t, w, n, s, tb) ==
  IF w > 90 THEN {"ok", "existed", "notfound"}
  ELSE IF U[s].tree[n] # "" THEN {IF t = "reg" THEN "existed" ELSE "ok"}
  ELSE IF tb THEN {"ok"} \cup (IF t = "reg" THEN {"existed"} ELSE {})
  ELSE {"notfound"}

Ans ==
  \E n \in Some(SimNames), t \in Some({"reg", "look"}), a \in Some(1..100), b \in Some(1..100),
     c \in Some(1..100), d \in Some(1..100) :
  \E s \in Some(Near(a)), e \in Some(Expect(b, n)) : \E tb \in Some(IF c <= 60 /\ U[s].tree[n] = "" THEN {TRUE} ELSE BOOLEAN) :
  \E k \in Some(TbKey(d, n, s, e)), err \in Some(Errors(t, c, n, s, tb)) :
  \E p \in {Plain(t, n, e, err, s, tb, k)} :
  \E x \in IF d % 2 = 0 THEN {p} ELSE Some(Changed(p, SimNames)) :
  \E y \in IF d % 10 = 1 THEN Some(Changed(x, SimNames)) ELSE {x} :
    Handle(y) /\ hist' = Append(hist, [op |-> "Resp", r |-> y])

\* an auditor's view: mostly a branch that ends near the client's STR
RECURSIVE Back(_, _)
Back(i, k) == IF k <= 1 \/ U[i].ph = 0 \/ U[i].ph >= i THEN <<i>> ELSE Append(Back(U[i].ph, k - 1), i)
Clean(sq) == [i \in DOMAIN sq |-> [s |-> sq[i], m |-> "none"]]
View ==
  \E w \in Some(1..100), s \in Some(IF Kids = {} THEN {v} ELSE {v} \cup Kids), x \in Some(Ids), k \in Some(1..4), i \in Some(1..4),
     m \in Some(StrMuts) :
  \E r \in {Clean(Back(IF w <= 70 THEN s ELSE x, k))} :
  \E q \in {IF w % 3 # 0 THEN r
            ELSE IF w % 6 = 0 THEN [r EXCEPT ![1 + (i % Len(r))].m = m]
            ELSE IF w % 9 = 0 THEN [r EXCEPT ![1 + (i % Len(r))].s = x]
            ELSE IF i = 1 /\ Len(r) > 1 THEN Tail(r) \o <<r[1]>>
            ELSE IF i = 2 /\ Len(r) > 2 THEN <<r[1]>> \o SubSeq(r, 3, Len(r))
            ELSE r \o <<r[Len(r)]>>} :
    /\ UNCHANGED clvars
    /\ hist' = Append(hist, [op |-> "Equiv", rng |-> q, shape |-> "whole"])

SNext == \E w \in Some(1..10) : IF w <= 8 THEN Ans ELSE View
SSpec == SInit /\ [][SNext]_<<clvars, hist>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
