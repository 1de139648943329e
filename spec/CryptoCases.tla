------------------------------ MODULE CryptoCases ------------------------------
EXTENDS Crypto, Json, Randomization
CONSTANTS NMix, NFlip, NForge, NOpen, NDig, Which
VARIABLE c
NK == 8
NM == 34
Ks == 1..NK
Ms == 1..NM
Src == [k : Ks, m : Ms]
Some(S) == RandomSubset(1, S)
Regions == {"out", "s", "t", "ii"}
Ver(k, m, o, s, t, i, a, r, p, b) ==
  [op |-> "VrfVer", k |-> k, m |-> m, out |-> o, s |-> s, t |-> t, ii |-> i, alt |-> a, region |-> r, pos |-> p, bit |-> b]
Honest(x, a, r, p, b) == Ver(x.k, x.m, x, x, x, x, a, r, p, b)
Near(x) == {[k |-> x.k, m |-> m] : m \in {1 + (x.m % NM), 1 + ((x.m + NM - 2) % NM)}} \cup {[k |-> 1 + (x.k % NK), m |-> x.m]} \cup RandomSubset(2, Src)
Vrf ==
  \/ \E x \in Src : c = [op |-> "VrfMake", k |-> x.k, m |-> x.m]
  \/ \E i \in 1..(NForge \div 2) : c = [op |-> "VrfMany", n |-> 150, v |-> i]
  \/ \E x \in Src : c = Honest(x, "none", "out", 0, 0)
  \* one or more parts from elsewhere
  \/ \E x \in Src : \E y \in Near(x) : \E w \in {"key", "msg", "out", "s", "t", "ii", "st", "sti", "outii", "all"} :
       LET put(ps, p) == IF p \in ps THEN y ELSE x
           k == IF w = "key" THEN y.k ELSE x.k
           m == IF w = "msg" THEN y.m ELSE x.m
           ps == CASE w \in {"key", "msg"} -> {} [] w = "st" -> {"s", "t"} [] w = "sti" -> {"s", "t", "ii"}
                   [] w = "outii" -> {"out", "ii"} [] w = "all" -> {"out", "s", "t", "ii"} [] OTHER -> {w}
       IN c = Ver(k, m, put(ps, "out"), put(ps, "s"), put(ps, "t"), put(ps, "ii"), "none", "out", 0, 0)
  \/ \E v \in RandomSubset(NMix, [k : 1..2, m : 1..3, o : [k : 1..2, m : 1..3], s : [k : 1..2, m : 1..3], t : [k : 1..2, m : 1..3], i : [k : 1..2, m : 1..3]]) :
       c = Ver(v.k, v.m, v.o, v.s, v.t, v.i, "none", "out", 0, 0)
  \* altered bits
  \/ \E r \in Regions, p \in 0..31, b \in 0..7 : \E x \in RandomSubset(NFlip, Src) : c = Honest(x, "flip", r, p, b)
  \/ \E a \in {"zero", "ones", "swap", "reverse", "random"}, r \in Regions : \E x \in RandomSubset(6, Src) : c = Honest(x, a, r, 0, 0)
  \* lengths
  \/ \E r \in {"out", "proof", "key"}, n \in {0, 1, 16, 31, 32, 33, 63, 64, 65, 80, 95, 96, 97, 128, 192} : \E x \in RandomSubset(2, Src) :
       ~(r = "proof" /\ n = 96) /\ ~(r # "proof" /\ n = 32) /\ c = Honest(x, "length", r, n, 0)
  \/ \E r \in {"out", "proof", "key"} : \E x \in RandomSubset(2, Src) : c = Honest(x, "nil", r, 0, 0)
  \* forgeries
  \/ \E f \in Forgeries : \E x \in RandomSubset(NForge, Src) : \E y \in Some(Near(x)) :
       c = [op |-> "VrfForge", how |-> f, k |-> x.k, m |-> x.m, k2 |-> y.k, m2 |-> y.m]
Sig ==
  \/ \E x \in Src : c = [op |-> "SigVer", k |-> x.k, m |-> x.m, r |-> x, s |-> x, alt |-> "none", pos |-> 0, bit |-> 0]
  \/ \E x \in Src : \E y \in Near(x) : \E w \in {"key", "msg", "r", "s", "rs"} :
       c = [op |-> "SigVer", k |-> IF w = "key" THEN y.k ELSE x.k, m |-> IF w = "msg" THEN y.m ELSE x.m,
            r |-> IF w \in {"r", "rs"} THEN y ELSE x, s |-> IF w \in {"s", "rs"} THEN y ELSE x, alt |-> "none", pos |-> 0, bit |-> 0]
  \/ \E p \in 0..63, b \in 0..7 : \E x \in RandomSubset(NFlip, Src) :
       c = [op |-> "SigVer", k |-> x.k, m |-> x.m, r |-> x, s |-> x, alt |-> "flip", pos |-> p, bit |-> b]
  \/ \E a \in {"zero", "s+l", "swap", "random", "nil"} : \E x \in RandomSubset(6, Src) :
       c = [op |-> "SigVer", k |-> x.k, m |-> x.m, r |-> x, s |-> x, alt |-> a, pos |-> 0, bit |-> 0]
  \/ \E n \in {0, 1, 32, 63, 65, 128} : \E x \in RandomSubset(4, Src) :
       c = [op |-> "SigVer", k |-> x.k, m |-> x.m, r |-> x, s |-> x, alt |-> "length", pos |-> n, bit |-> 0]
Pieces == {"a", "b", "nul", "L1", "L2"}
Strs == {<<>>, <<"a">>, <<"b">>, <<"nul">>, <<"L1">>} \cup RandomSubset(8, [1..2 -> Pieces]) \cup RandomSubset(5, [1..3 -> Pieces])
Lists == {<<>>} \cup {<<a>> : a \in Strs} \cup RandomSubset(40, {<<a, b>> : a \in Strs, b \in Strs}) \cup RandomSubset(20, [1..3 -> Strs]) \cup RandomSubset(8, [1..5 -> Strs])
\* the same bytes cut at other places, and near misses
Cut(s) == {<<SubSeq(s, 1, i), SubSeq(s, i + 1, Len(s))>> : i \in 0..Len(s)} \cup {<<s>>, <<s, <<>> >>, <<<<>>, s>>} \cup
          {<<Append(s, x)>> : x \in {"a", "nul"}} \cup (IF s = <<>> THEN {} ELSE {<<Tail(s)>>, <<SubSeq(s, 1, Len(s) - 1)>>, <<Tail(s), <<Head(s)>> >>})
Alts == {"none", "flipsalt", "flipvalue", "shift", "unshift", "emptysalt", "nilsalt", "shortvalue", "longvalue", "nilvalue", "longsalt"}
Com ==
  \/ \E x \in RandomSubset(NOpen, Lists) : \E y \in Cut(Concat(x)) \cup {x} \cup RandomSubset(2, Lists), a \in Alts : \E p \in Some(0..31), b \in Some(0..7) :
       c = [op |-> "Open", cs |-> <<x, y>>, v |-> [salt |-> 1, value |-> 1, vals |-> y, alt |-> a, pos |-> p, bit |-> b]]
  \/ \E x \in RandomSubset(NOpen, Lists) : \E y \in {x} \cup Cut(Concat(x)), sv \in {<<1, 2>>, <<2, 1>>, <<2, 2>>} :
       c = [op |-> "Open", cs |-> <<x, y>>, v |-> [salt |-> sv[1], value |-> sv[2], vals |-> x, alt |-> "none", pos |-> 0, bit |-> 0]]
  \/ \E p \in 0..31, b \in 0..7, a \in {"flipsalt", "flipvalue"} : \E x \in Some(Lists) :
       c = [op |-> "Open", cs |-> <<x, x>>, v |-> [salt |-> 1, value |-> 1, vals |-> x, alt |-> a, pos |-> p, bit |-> b]]
Dig ==
  \/ \E x \in RandomSubset(NDig, Lists) : \E y \in Cut(Concat(x)) \cup {x} \cup RandomSubset(2, Lists) : c = [op |-> "Digest", a |-> x, b |-> y]
  \/ \E n \in 0..700 : c = [op |-> "DigestLen", n |-> n]
  \/ \E i \in 1..8 : c = [op |-> "Rand", n |-> 3000, v |-> i]
  \/ \E f \in {"none", "short0", "short31", "error"}, w \in {"commit", "rand", "sigkey", "vrfkey"} : c = [op |-> "RandFault", fault |-> f, what |-> w]
Init == (Which = "X01" /\ Vrf) \/ (Which = "X02" /\ (Sig \/ Com \/ Dig))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(<<c>>))
=============================================================================
