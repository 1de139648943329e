-------------------------------- MODULE Crypto --------------------------------
(* The ideal primitives: a VRF, signatures, commitments and digests, in terms  *)
(* of who made which part of what for which input.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* --- VRF. A source [k, m] stands for what key k gives for input m.  A proof
\* consists of the parts s, t, ii; out is the output it is presented with.
VrfAccepts(v) ==
  /\ v.alt = "none"
  /\ \A p \in {"out", "s", "t", "ii"} : v[p] = [k |-> v.k, m |-> v.m]
\* all a prover may try beyond that (VrfGame) has to fail
Forgeries == {"omitP", "omitII", "omitGR", "omitHR", "omitP+HR", "omitII+GR", "torsion2", "torsion4", "torsion8", "keytorsion",
              "identitykey", "identityII", "noncanonicalII", "scalar+l", "challenge+l", "predict", "zeros", "otherkey", "noproof", "sumproof", "longkey"}
\* --- signatures: parts r and s
SigAccepts(v) == v.alt = "none" /\ v.r = [k |-> v.k, m |-> v.m] /\ v.s = [k |-> v.k, m |-> v.m]
\* --- sequences of byte strings (of pieces) are hashed one after the other
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
SameInput(a, b) == Concat(a) = Concat(b)
\* commitments i with contents cs: opened with parts of others, or altered
Opens(cs, v) == v.alt = "none" /\ v.salt = v.value /\ SameInput(cs[v.value], v.vals)
==============================================================================
