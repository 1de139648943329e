----------------------------- MODULE MCKvRange -----------------------------
(* The range of a prefix is exactly the keys that begin with it, for all      *)
(* prefixes and keys over a small alphabet; the order is a strict total one.  *)
EXTENDS KvRange
CONSTANT MaxLen
VARIABLES p, k
Strings == UNION {[1..i -> 0..Top] : i \in 0..MaxLen}
RInit == p \in Strings /\ k \in Strings
RNext == UNCHANGED <<p, k>>
RSpec == RInit /\ [][RNext]_<<p, k>>
Exact == InRange(k, p, Above(p)) = HasPrefix(k, p)
\* no other limit is exact for all keys, so the limit is determined
Least == Above(p) # NoLimit /\ ~HasPrefix(k, p) /\ ~Lt(k, p) => ~Lt(k, Above(p))
Total == (Lt(p, k) \/ Lt(k, p) \/ p = k) /\ ~(Lt(p, k) /\ Lt(k, p))
=============================================================================
