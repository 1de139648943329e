------------------------------- MODULE Proofs -------------------------------
(* When is an authentication path a proof?  `Accept' decides on the facts     *)
(* about a path (lengths, agreements, openings, and whether the siblings fold *)
(* to the root); it is what the real Verify is compared with (ProofsTrace).   *)
(* MCProofs evaluates the same predicate on symbolic byte strings and shows   *)
(* that a root never admits two conflicting answers.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  HS,        \* size of hashes, nonces and salts
  BitsPer    \* bits per index byte

PrefixBytes(n) == (n + BitsPer - 1) \div BitsPer

\* f.leaf, f.empty, f.com, f.same, f.vnil, f.veq, f.opens, f.root: booleans;
\* f.nonce, f.sib, f.lvl, f.lookup, f.ilen, f.clen, f.slen, f.match: numbers
Shape(f) ==
  /\ f.leaf
  /\ f.lvl = f.sib
  /\ f.nonce <= HS
  /\ f.sib <= BitsPer * f.lookup
  /\ IF f.empty THEN ~f.same /\ f.ilen = PrefixBytes(f.sib)
                ELSE f.ilen = f.lookup /\ f.com /\ f.clen = HS

Accept(f) ==
  /\ Shape(f)
  /\ IF f.same THEN f.veq /\ f.slen = HS /\ f.opens
               ELSE f.match >= f.lvl /\ f.vnil
  /\ f.root
==============================================================================
