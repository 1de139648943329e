-------------------------------- MODULE Wire --------------------------------
(* Messages on the wire: what decoding an encoded message has to give.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
KindOf(t) == CASE t = 0 -> "reg" [] t = 1 -> "look" [] t = 2 -> "lookep" [] t = 3 -> "mon" [] OTHER -> "none"
AllFields == {"name", "key", "ep", "s", "e", "f1", "f2"}
Fields(kind) == CASE kind = "reg" -> {"name", "key", "f1", "f2"} [] kind = "look" -> {"name"}
                  [] kind = "lookep" -> {"name", "ep"} [] kind = "mon" -> {"name", "s", "e"} [] OTHER -> {}
Zero(f) == CASE f = "name" -> "n0" [] f = "key" -> "k0" [] f \in {"ep", "s", "e"} -> "e0" [] OTHER -> "f"
\* a field of an encoded object: a value, left out, null, or of another type
NoValue == {"missing", "null"}
\* --- requests: type is a number, or of a form that names no kind
\* body: [form, vals]; form "obj" is an object with the fields vals
TypeForms == {"int", "absent", "null", "string", "frac", "obj", "huge"}
Named(tform, t) == IF tform = "int" THEN KindOf(t) ELSE "none"
\* the kinds a request may decode to; none of the four: an error, or not one of them
Decodable(tform, t, form, vals) ==
  LET k == Named(tform, t) IN
  k # "none" /\ form = "obj" /\ \A f \in Fields(k) : vals[f] # "wrong"
Value(k, f, vals) == IF f \in Fields(k) /\ vals[f] \notin NoValue THEN vals[f] ELSE Zero(f)
\* a request without a type may count as one of type 0
DefaultOk(tform, form, vals) ==
  tform \in {"absent", "null"} /\ form = "obj" /\ \A f \in Fields("reg") : vals[f] # "wrong"

\* --- responses: [code, kind, ap, str, tb, checks], kind: proof, range or none
Codes == {"ok", "existed", "notfound", "unknowndir", "errdir", "erraudit", "malformed", "badsig",
          "badvrf", "differ", "badcommit", "badindex", "badpath", "badstr", "badpromise", "broken", "code0", "code150", "code-7"}
Bare == {"errdir", "erraudit", "malformed"}     \* the codes of answers without a proof
ReadAs(t) == IF t = 5 THEN "range" ELSE "proof"
RespDecode(t, r) ==
  IF r.kind = "none"
  THEN [code |-> IF r.code \in Bare THEN r.code ELSE "malformed", kind |-> "none", ap |-> <<>>, str |-> <<>>, tb |-> ""]
  ELSE LET k == ReadAs(t) IN
       [code |-> r.code, kind |-> k,
        ap  |-> IF k = "range" \/ r.kind = "range" THEN <<>> ELSE r.ap,
        str |-> r.str,
        tb  |-> IF k = "range" \/ r.kind = "range" THEN "" ELSE r.tb]
\* --- pinned roots: a file holds an STR of some epoch, or something else
Loads(content, epoch) == content = "str" /\ epoch = "e0"
=============================================================================
