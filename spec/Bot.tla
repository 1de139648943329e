--------------------------------- MODULE Bot ---------------------------------
(* The Twitter registration bot: which messages it passes on to the CONIKS    *)
(* server, what it answers, and which direct messages it reacts to.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* handles and names are sequences of pieces of text
LowerOf(x) == CASE x = "A" -> "a" [] x = "B" -> "b" [] x = "@TWITTER" -> "@twitter" [] OTHER -> x
Fold(s) == [i \in DOMAIN s |-> LowerOf(s[i])]
Suffix == <<"@twitter">>
\* the name of a registration the owner of the handle may make
NameFor(h, n) == Fold(h) \o Suffix = Fold(n)
\* A message m: [form, tform, t, body, name, name2].  form: how its text is made;
\* body: whose fields the request has; name2: what a second "Username" says.
Good == {"obj", "space", "order"}
Lenient == {"extra", "lowercase", "dup"}       \* decoders may or may not take these
Undecodable == {"trunc", "trailing", "array", "null", "string", "empty", "noreq", "reqnull", "reqstring", "namenum", "binary"}
NameOf(m) == IF m.form = "dup" THEN m.name2 ELSE m.name
\* "yes": authentic, "no": not, "may": depends on how strictly it is decoded
Verdict(h, m) ==
  LET type == m.tform = "int" /\ m.t = 0
      typeless == m.tform \in {"absent", "null"}
  IN CASE m.form \in Undecodable -> "no"
       [] ~NameFor(h, NameOf(m)) -> "no"
       [] ~(type \/ typeless) -> "no"
       [] type /\ m.form \in Good /\ m.body = "reg" /\ m.name[Len(m.name)] = "@twitter" -> "yes"
       [] OTHER -> "may"
\* what the server does: it answers, or fails in some way
Fails == {"gone", "refuse", "close", "reset", "partreset"}
Answers(srv) == IF srv \in Fails THEN "dir" ELSE "same"
Receives(srv) == srv \notin {"gone", "refuse", "reset", "partreset"}
\* what reaches the server ("same": the message) and what the sender is told
PassOn(srv) == [fwd |-> IF Receives(srv) THEN <<"same">> ELSE <<>>, ans |-> Answers(srv)]
Refuse == [fwd |-> <<>>, ans |-> "malformed"]
Outcomes(h, m, srv) ==
  CASE Verdict(h, m) = "yes" -> {PassOn(srv)}
    [] Verdict(h, m) = "no" -> {Refuse}
    [] OTHER -> {PassOn(srv), Refuse}
\* a direct message: [from, prefix, m]; the bot's own messages come back on its stream
Reacts(bot, d) == Fold(d.from) # Fold(bot) /\ d.prefix \in {"yes", "twice"}
DMVerdict(d) == IF d.prefix = "twice" THEN "no" ELSE Verdict(d.from, d.m)
DMOutcomes(d, srv) == IF d.prefix = "twice" THEN {Refuse} ELSE Outcomes(d.from, d.m, srv)
=============================================================================
