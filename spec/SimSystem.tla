----------------------------- MODULE SimSystem -----------------------------
(* Random long runs of the whole system.                                      *)
EXTENDS System, Json, Randomization
CONSTANTS SimNames, SimKeys, SimClients, SimCaps, Depth
VARIABLE hist

Order == <<"n1", "n2", "n3", "n4", "n5", "n6">>
Bit(x, i) == (x \div (2 ^ i)) % 2
SimBits == [n \in SimNames |-> LET x == 7 * (CHOOSE i \in DOMAIN Order : Order[i] = n) % 16 IN
              [i \in 1..5 |-> IF i = 5 THEN 0 ELSE Bit(x, i - 1)]]
SInit == \E c \in SimCaps : SysInit(SimClients, SimNames, c, 60, LcpOfBits(SimBits)) /\ hist = <<[op |-> "New", cap |-> c]>>

Some(S) == RandomSubset(1, IF Len(hist) >= 0 THEN S ELSE {})
Do(o) == hist' = Append(hist, o)
Behind == {c \in SimClients : cl[c].v + 1 = cur}
Following == {c \in SimClients : ~Lost(c)}
Who(w) == IF w <= 60 /\ Behind # {} THEN Behind ELSE IF w <= 97 /\ Following # {} THEN Following ELSE SimClients
Which(w) == IF w <= 40 /\ DOMAIN tbs # {} THEN DOMAIN tbs ELSE IF w <= 70 /\ DOMAIN tree # {} THEN DOMAIN tree ELSE SimNames
Expected(w, c, n) ==
  IF w <= 30 THEN {""} ELSE IF w <= 75 THEN {cl[c].keys[n]}
  ELSE IF w <= 90 /\ n \in DOMAIN tree THEN {tree[n]} ELSE SimKeys

SReg == \E a \in Some(1..100), b \in Some(1..100), x \in Some(1..100) : \E c \in Some(Who(a)), n \in Some(Which(b)) :
        \E k \in Some(IF x <= 30 /\ n \in DOMAIN tree THEN {tree[n]} ELSE SimKeys) :
          ClientRegister(c, n, k) /\ Do([op |-> "Reg", c |-> c, n |-> n, k |-> k])
SLook == \E a \in Some(1..100), b \in Some(1..100), x \in Some(1..100) : \E c \in Some(Who(a)), n \in Some(Which(b)) :
         \E k \in Some(Expected(x, c, n)) :
           ClientLookup(c, n, k) /\ Do([op |-> "Look", c |-> c, n |-> n, k |-> k])
SUpd == SysUpdate /\ Do([op |-> "Upd"])
SPol == \E d \in Some({1, 60, 3600}) : SysPolicies(d) /\ Do([op |-> "Pol", dl |-> d])
SFetch == \E x \in Some(1..100) : \E s \in Some(IF x <= 60 THEN {aud + 1} ELSE IF x <= 90 THEN {aud} ELSE {Max(aud - 1, 0), aud + 2, cur}) :
            AuditorFetch(s) /\ Do([op |-> "Fetch", s |-> s])
SComp == \E a \in Some(1..100), x \in Some(1..100) : \E c \in Some(Who(a)) :
         \E e \in Some(IF x <= 45 THEN {aud} ELSE IF x <= 75 THEN {cl[c].v} ELSE IF x <= 85 THEN {cl[c].v + 1} ELSE 0..(aud + 1)) :
         \E s \in Some(IF x % 4 = 0 THEN {e} ELSE IF x % 4 = 1 THEN {0} ELSE IF x % 4 = 2 THEN {Max(e - 2, 0)} ELSE 0..(aud + 1)) :
           ClientCompare(c, s, e) /\ Do([op |-> "Comp", c |-> c, s |-> s, e |-> e])
SNext ==
  \E w \in Some(1..100) :
    CASE w <= 26 -> SReg
      [] w \in 27..66 -> SLook
      [] w \in 67..68 -> SPol
      [] w \in 69..78 -> SFetch
      [] w \in 79..86 -> SComp
      [] OTHER -> IF Behind = {} \/ w = 100 THEN SUpd ELSE SLook
SSpec == SInit /\ [][SNext]_<<sysvars, hist>>
PrintHist == Len(hist) # Depth \/ PrintT("HIST\t" \o ToJson(hist))
==============================================================================
