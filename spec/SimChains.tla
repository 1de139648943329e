------------------------------ MODULE SimChains ------------------------------
(* Random universes of STRs: mostly extended honestly, sometimes not.         *)
EXTENDS Chains, TLC, Randomization

\* one random element, drawn anew in each evaluation
Pick(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Mx(a, b) == IF a > b THEN a ELSE b

Dice(k) ==
  CHOOSE d \in {[p |-> Pick(1..k), w |-> Pick(1..100), q |-> Pick(1..100), x |-> Pick(1..100),
                 y |-> Pick(1..100), z |-> Pick(1..100), t |-> Pick(1..100), a |-> Pick(1..100)]} : TRUE

NewTree(old, w, K, names) ==
  [n \in names |->
     CASE w <= 70 /\ old[n] # "" -> old[n]
       [] w <= 70 /\ old[n] = "" -> Pick(K \cup {""})
       [] w \in 71..84 -> old[n]
       [] OTHER -> Pick(K \cup {""})]

Extend(u, d, K, names, start) ==
  LET k == Len(u)
      p == IF d.w <= 62 THEN k ELSE d.p
      P == u[p]
      ep == IF d.q <= 90 THEN P.ep + 1 ELSE IF d.q <= 93 THEN P.ep + 2 ELSE IF d.q <= 96 THEN P.ep ELSE Mx(P.ep, 1) - 1
      pe == IF d.x <= 94 THEN P.ep ELSE IF d.x <= 97 THEN P.ep + 1 ELSE Mx(P.ep, 1) - 1
      ph == IF d.y <= 94 THEN p ELSE IF d.y <= 97 THEN d.p ELSE 0
      signer == IF d.z <= 94 THEN P.signer ELSE IF d.z <= 97 THEN 3 - P.signer ELSE 1
      vrf == IF d.a <= 94 THEN P.vrf ELSE 3 - P.vrf
  IN { [ep |-> ep, pe |-> pe, ph |-> ph, tree |-> tr,
        share |-> IF tr = P.tree /\ vrf = P.vrf /\ d.t % 2 = 0 THEN P.share ELSE k + 1,
        vrf |-> vrf, signer |-> signer] : tr \in {NewTree(P.tree, d.t, K, names)} }

RECURSIVE Grow(_, _, _, _, _)
Grow(u, size, K, names, start) ==
  IF Len(u) = size THEN u
  ELSE Grow(CHOOSE x \in {Append(u, s) : s \in Extend(u, Dice(Len(u)), K, names, start)} : TRUE, size, K, names, start)

First(ep, tr, signer) == [ep |-> ep, pe |-> Mx(ep, 1) - 1, ph |-> 0, tree |-> tr, share |-> 1, vrf |-> 1, signer |-> signer]
MkUniverse(i, size, K, names) ==
  Grow(<<First(IF i % 2 = 0 THEN 0 ELSE i, [n \in names |-> IF i % 3 = 0 THEN Pick(K \cup {""}) ELSE ""], 1)>>,
       size, K, names, 0)
==============================================================================
