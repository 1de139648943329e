------------------------------- MODULE Chains -------------------------------
(* Signed tree roots (STRs) as an adversary may make them: a directory (or    *)
(* whoever holds its key) can sign any number of STRs, forking the history as *)
(* it likes; nobody else can make an STR that verifies under its key.         *)
(*                                                                            *)
(* U is a fixed sequence of STRs; U[i] has                                    *)
(*   ep, pe  the epoch and previous epoch it names                            *)
(*   ph      the STR whose signature's hash it contains (0: none of U)        *)
(*   tree    the names' keys in its tree ("" if absent)                       *)
(*   share   the STR whose tree it uses (itself, or an earlier one with the   *)
(*           same content: then both have the same root)                      *)
(*   vrf     the VRF key in its policies (its tree is indexed with it)        *)
(*   signer  whose key signed it                                              *)
(* A delivered STR is U[s], altered if m # "none" (an altered STR keeps the   *)
(* original signature, or has its signature altered).                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE U

\* the alterations of an STR; each changes what it says
StrMuts == {"sig", "epoch", "root", "prevhash", "prevepoch", "deadline", "vrf", "version", "nosig", "swaproot", "polshift"}

Linked(a, b) == U[b].ep = U[a].ep + 1 /\ U[b].pe = U[a].ep /\ U[b].ph = a
Genuine(key, x) == x.m = "none" /\ U[x.s].signer = key
\* x is what comes after the (genuine, trusted) STR a
Follows(key, a, x) == Genuine(key, x) /\ Linked(a, x.s)
IsSame(a, x) == x.m = "none" /\ x.s = a
\* x agrees with the trusted STR a
Fits(key, a, x) == IsSame(a, x) \/ Follows(key, a, x)

\* a correctly signed and linked range of STRs
ChainOf(key, r) ==
  /\ Len(r) > 0
  /\ \A i \in DOMAIN r : Genuine(key, r[i])
  /\ \A i \in 1..(Len(r) - 1) : Linked(r[i].s, r[i + 1].s)

\* STR i, its predecessors: an honest directory's history?
RECURSIVE HonestUpTo(_)
HonestUpTo(i) ==
  \/ U[i].ph = 0
  \/ LET p == U[i].ph IN
     /\ p < i
     /\ Linked(p, i) /\ U[i].signer = U[p].signer /\ U[i].vrf = U[p].vrf
     /\ \A n \in DOMAIN U[p].tree : U[p].tree[n] # "" => U[i].tree[n] = U[p].tree[n]
     /\ HonestUpTo(p)

\* the STRs from which i descends by links, including i
RECURSIVE Ancestors(_)
Ancestors(i) == {i} \cup (IF U[i].ph = 0 \/ ~Linked(U[i].ph, i) THEN {} ELSE Ancestors(U[i].ph))
==============================================================================
