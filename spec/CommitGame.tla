------------------------------ MODULE CommitGame ------------------------------
(* Why an opening is unambiguous: a commitment hashes its salt followed by the *)
(* values (the hash is ideal, so equal hashes mean equal strings).  Whoever    *)
(* opens it chooses salt and values; the verifier checks the salt's length.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SaltLen, MaxLen, CheckLen
VARIABLES made, open
Bits == {0, 1}
Strs(n) == UNION {[1..k -> Bits] : k \in 0..n}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Lists == UNION {[1..k -> Strs(MaxLen)] : k \in 0..2}
Init == /\ made \in [salt : [1..SaltLen -> Bits], vals : Lists]
        /\ open = [salt |-> <<9>>, vals |-> <<>>]
Next == /\ open.salt = <<9>>
        /\ open' \in [salt : Strs(SaltLen + 2), vals : Lists]
        /\ UNCHANGED made
Spec == Init /\ [][Next]_<<made, open>>
Accepted == /\ CheckLen => Len(open.salt) = SaltLen
            /\ open.salt \o Concat(open.vals) = made.salt \o Concat(made.vals)
Binding == Accepted => open.salt = made.salt /\ Concat(open.vals) = Concat(made.vals)
==============================================================================
