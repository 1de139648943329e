------------------------------- MODULE VrfGame -------------------------------
(* Why nobody, not even the key's owner, can prove a second output: the game  *)
(* behind VRF proofs.  A prover commits to what is hashed, is given a random  *)
(* challenge c, and then chooses the rest.  Points have a coordinate for the  *)
(* base point G, one for the hashed input H (whose logarithm nobody knows),   *)
(* and a torsion part (the cofactor, of order 2 here).  A proof is accepted   *)
(* iff GR = t*G + c*P and HR = t*H + c*II, and II, P pass the group check.    *)
(* Sound: for all commitments all but one class of the challenges are lost.   *)
EXTENDS Integers, FiniteSets
CONSTANTS Q, Hashed, CheckII, CheckP
VARIABLE h
Z == 0..(Q - 1)
Two == {0, 1}
Cs == 0..(2 * Q - 1)
Ps  == [x : Z, tor : Two]
IIs == [y : Z, g : Z, tor : Two]
GRs == [g : Z, h : Z, tor : Two]
HRs == [g : Z, h : Z, tor : Two]
None == [none |-> TRUE]
Late(S, name, v) == IF name \in Hashed THEN {v} ELSE S
Init == \E p \in Ps, i \in IIs, a \in GRs, b \in HRs :
          h = [P  |-> IF "P" \in Hashed THEN p ELSE [x |-> 0, tor |-> 0],
               II |-> IF "II" \in Hashed THEN i ELSE [y |-> 0, g |-> 0, tor |-> 0],
               GR |-> IF "GR" \in Hashed THEN a ELSE [g |-> 0, h |-> 0, tor |-> 0],
               HR |-> IF "HR" \in Hashed THEN b ELSE [g |-> 0, h |-> 0, tor |-> 0]]
Next == UNCHANGED h
Spec == Init /\ [][Next]_h
Accepts(P, II, GR, HR, c, t) ==
  /\ GR.g = (t + c * P.x) % Q /\ GR.h = 0 /\ GR.tor = (c * P.tor) % 2
  /\ HR.h = (t + c * II.y) % Q /\ HR.g = (c * II.g) % Q /\ HR.tor = (c * II.tor) % 2
  /\ CheckII => II.tor = 0
  /\ CheckP => P.tor = 0
Wrong(P, II) == ~(II.y = P.x /\ II.g = 0 /\ II.tor = 0)
Wins == {c \in Cs : \E t \in Z, P \in Late(Ps, "P", h.P), II \in Late(IIs, "II", h.II),
                       GR \in Late(GRs, "GR", h.GR), HR \in Late(HRs, "HR", h.HR) :
                    Wrong(P, II) /\ Accepts(P, II, GR, HR, c, t)}
Sound == Cardinality({c % Q : c \in Wins}) <= 1
\* an honest proof is always accepted
Complete == \A c \in Cs : \A x \in Z, r \in Z :
              \E t \in Z : Accepts([x |-> x, tor |-> 0], [y |-> x, g |-> 0, tor |-> 0],
                                   [g |-> r, h |-> 0, tor |-> 0], [g |-> 0, h |-> r, tor |-> 0], c, t)
=============================================================================
