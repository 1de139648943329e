------------------------------ MODULE KvRange ------------------------------
(* Byte strings in their order, the range of a prefix, and scans.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Top                       \* the greatest byte
Min2(a, b) == IF a < b THEN a ELSE b
\* lexicographic order
RECURSIVE Lt(_, _)
Lt(a, b) == IF b = <<>> THEN FALSE
            ELSE IF a = <<>> THEN TRUE
            ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
            ELSE Lt(Tail(a), Tail(b))
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
\* the least byte string above all that begin with p; <<-1>> if there is none
NoLimit == <<-1>>
Above(p) == LET I == {i \in DOMAIN p : p[i] < Top} IN
            IF I = {} THEN NoLimit
            ELSE LET i == CHOOSE x \in I : \A y \in I : y <= x
                 IN [j \in 1..i |-> IF j = i THEN p[j] + 1 ELSE p[j]]
InRange(k, s, e) == ~Lt(k, s) /\ (e = NoLimit \/ Lt(k, e))
\* the keys of S in ascending order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Lt(x, y)
                  IN <<m>> \o Sorted(S \ {m})
Scan(m, s, e) == LET K == Sorted({k \in DOMAIN m : InRange(k, s, e)})
                 IN [i \in DOMAIN K |-> [k |-> K[i], v |-> m[K[i]]]]
\* an iterator stands before the first entry, on one, or behind the last
Move(pos, n, w) == CASE w = "First" -> IF n = 0 THEN 0 ELSE 1
                     [] w = "Last" -> n
                     [] w = "Next" -> IF pos > n THEN pos ELSE pos + 1
On(pos, n) == pos \in 1..n
=============================================================================
