----------------------------- MODULE Malformed ------------------------------
(* Answers as bytes.  A client at STR 1 (of the universe Univ) is given the   *)
(* encoding of a genuine answer under STR 2, edited.  Part names a part of an *)
(* encoded answer; a received byte string is described by                     *)
(*   decodes  it is a well-formed, correctly typed encoding at all            *)
(*   lacks    the needed parts that are missing in it                         *)
(*   diff     the parts in which it differs from the genuine answer           *)
EXTENDS Integers, Sequences, FiniteSets

Tree(a, b, c) == [n1 |-> a, n2 |-> b, n3 |-> c]
Univ == << [ep |-> 0, pe |-> 0, ph |-> 0, tree |-> Tree("", "k2", ""), share |-> 1, vrf |-> 1, signer |-> 1],
           [ep |-> 1, pe |-> 0, ph |-> 1, tree |-> Tree("k1", "k2", ""), share |-> 2, vrf |-> 1, signer |-> 1] >>

Answers == {"regnew", "regold", "lookincl", "lookabs", "looktb", "equiv"}
\* what the client knows before: nothing, n2's key, or a promise for n1
Priors == {"none", "known", "promised"}

\* the parts of an answer's encoding
StrParts == {"TreeHash", "Epoch", "PreviousEpoch", "PreviousSTRHash", "Signature", "Policies"}
PolParts == {"Version", "HashID", "VrfPublicKey", "EpochDeadline"}
Strs == {<<"DirectoryResponse", "STR">>, <<"DirectoryResponse", "STR", "0">>}
        \cup {<<"DirectoryResponse", "STR", "0", p>> : p \in StrParts}
        \cup {<<"DirectoryResponse", "STR", "0", "Policies", p>> : p \in PolParts}
Ap == <<"DirectoryResponse", "AP", "0">>
Aps == {<<"DirectoryResponse", "AP">>, Ap}
       \cup {Ap \o <<p>> : p \in {"TreeNonce", "PrunedTree", "LookupIndex", "VrfProof", "Leaf"}}
       \cup {Ap \o <<"PrunedTree", "0">>, Ap \o <<"PrunedTree", "0", "0">>}
       \cup {Ap \o <<"Leaf", p>> : p \in {"Level", "Index", "Value", "IsEmpty", "Commitment"}}
       \cup {Ap \o <<"Leaf", "Commitment", p>> : p \in {"Salt", "Value"}}
Tbs == {<<"DirectoryResponse", "TB">>} \cup {<<"DirectoryResponse", "TB", p>> : p \in {"Index", "Value", "Signature"}}
Parts(a) == {<<>>, <<"Error">>, <<"DirectoryResponse">>} \cup Strs
            \cup (IF a = "equiv" THEN {} ELSE Aps) \cup (IF a \in {"regnew", "looktb"} THEN Tbs ELSE {})

\* how a part can be edited
Hows == {"null", "missing", "number", "string", "base64", "list", "listnull", "object", "bool",
         "short", "long", "emptystr", "emptylist", "emptyobj", "neg", "huge", "frac", "dup", "drop", "bignum", "deep",
         "rename", "twice", "other", "extra"}
Raws == {"trunc", "flip", "set", "insert", "delete", "junk", "bom", "spaces", "trailing", "empty", "nul", "repeat", "utf8"}

Needed == {"DirectoryResponse", "AP", "AP.0", "Leaf", "STR", "STR.0", "Signed", "Policies"}
NeededFor(a) == IF a = "equiv" THEN {"DirectoryResponse", "STR", "STR.0", "Signed", "Policies"} ELSE Needed

\* parts whose content is proven: an answer that differs in them is not genuine
ApVerified == {"AP#", "LookupIndex", "VrfProof", "TreeNonce", "PrunedTree", "Level", "LeafIndex", "IsEmpty"}
StrVerified == {"STR#", "TreeHash", "Epoch", "PreviousEpoch", "PreviousSTRHash", "Signature", "Version", "HashID", "VrfPublicKey", "EpochDeadline"}
Verified(a) ==
  StrVerified
  \cup (IF a = "equiv" THEN {} ELSE ApVerified)
  \cup (IF a \in {"regold", "lookincl"} THEN {"LeafValue", "Salt", "Commitment"} ELSE {})
  \cup (IF a \in {"regnew", "looktb"} THEN {"TB", "TBIndex", "TBValue", "TBSignature"} ELSE {})
\* a status that another answer with the same parts may have (a name may be
\* denied although it is promised)
StatusAlso(a, err) == (a = "regnew" /\ err = "existed") \/ (a = "looktb" /\ err = "notfound")

\* must a byte string be rejected?
MustReject(a, decodes, lacks, diff, err) ==
  \/ ~decodes
  \/ lacks \cap NeededFor(a) # {}
  \/ diff \cap Verified(a) # {}
  \/ "Error" \in diff /\ ~StatusAlso(a, err)
\* must the trusted root stay?
MustStay(a, decodes, lacks, diff) ==
  a = "equiv" \/ ~decodes \/ lacks \cap NeededFor(a) # {} \/ diff \cap StrVerified # {}
==============================================================================
