-------------------------------- MODULE MCBot --------------------------------
(* The bot on its stream: anybody sends it direct messages, its own answers   *)
(* come back to it, the server may fail at any time.                          *)
EXTENDS Bot
CONSTANTS MaxDM, IgnoreOwn, CheckName
VARIABLES stream, srv, forwarded, sent, n
vars == <<stream, srv, forwarded, sent, n>>
BotH == <<"b">>
Handles == {<<"a">>, <<"A">>, BotH, <<"a", "b">>}
Names == {h \o s : h \in Handles, s \in {<<"@twitter">>, <<"x">>, <<"@twitter", "@twitter">>}}
Msgs == [form : {"obj", "trunc"}, tform : {"int"}, t : {0, 1}, body : {"reg"}, name : Names, name2 : {<<"x">>}]
DMs == [from : Handles, prefix : {"yes", "no", "twice"}, m : Msgs]
Init == stream = <<>> /\ srv = "ok" /\ forwarded = {} /\ sent = <<>> /\ n = 0
Send == /\ n < MaxDM /\ Len(stream) < 2
        /\ \E d \in DMs : d.from # BotH /\ stream' = Append(stream, d)
        /\ n' = n + 1 /\ UNCHANGED <<srv, forwarded, sent>>
Fault == srv' \in {"ok", "gone", "close"} /\ srv' # srv /\ UNCHANGED <<stream, forwarded, sent, n>>
Handle ==
  /\ stream # <<>>
  /\ LET d == Head(stream)
         reacts == IF IgnoreOwn THEN Reacts(BotH, d) ELSE d.prefix \in {"yes", "twice"}
         out == IF CheckName THEN DMOutcomes(d, srv)
                ELSE IF d.m.form \in Undecodable \/ d.m.t # 0 THEN {Refuse} ELSE {PassOn(srv)} IN
     IF ~reacts THEN stream' = Tail(stream) /\ UNCHANGED <<forwarded, sent>>
     ELSE \E o \in out :
            /\ forwarded' = IF o.fwd # <<>> THEN forwarded \cup {<<Fold(d.from), Fold(d.m.name)>>} ELSE forwarded
            /\ sent' = Append(sent, [to |-> d.from, ans |-> o.ans])
            /\ stream' = Append(Tail(stream), [from |-> BotH, prefix |-> "yes", m |-> [d.m EXCEPT !.form = "trunc"]])
  /\ UNCHANGED <<srv, n>>
Next == Send \/ Fault \/ Handle
Spec == Init /\ [][Next]_vars
\* nobody registers a name that is not the sender's
Authentic == \A f \in forwarded : f[2] = f[1] \o Suffix
\* no more answers than messages of others, and none to itself
NoLoop == Len(sent) <= n /\ \A i \in DOMAIN sent : sent[i].to # BotH
=============================================================================
