------------------------------ MODULE BotCases ------------------------------
EXTENDS Bot, Json, Randomization
CONSTANTS NPlain, NOdd, NSrv, NRun
VARIABLE c
Chars == {"a", "A", "b", "B", "_"}
Handles == UNION {[1..k -> Chars] : k \in 1..3}
Swap(x) == CASE x = "a" -> "A" [] x = "A" -> "a" [] x = "b" -> "B" [] x = "B" -> "b" [] OTHER -> x
SwapAll(h) == [i \in DOMAIN h |-> Swap(h[i])]
Suffixes == {<<"@twitter">>, <<"@TWITTER">>, <<"@twit">>, <<"@">>, <<>>, <<"@twitter", " ">>, <<"@twitter", "nul">>, <<"@twitter", "@twitter">>,
             <<"x", "@twitter">>, <<" ", "@twitter">>, <<"@twitter", "x">>, <<"nul", "@twitter">>, <<"@", "@twitter">>}
Some(S) == RandomSubset(1, S)
Forms == Good \cup Lenient \cup Undecodable
Srvs == Fails \cup {"ok", "slow"}
Sizes == {1, 2, 30, 1000, 4095, 8191, 8192, 8193, 12000, 70000}
Msg(f, tf, t, b, n, n2) == [form |-> f, tform |-> tf, t |-> t, body |-> b, name |-> n, name2 |-> n2]
Reg(h, m, s, z, p) == [op |-> "Reg", sender |-> h, m |-> m, srv |-> s, size |-> z, pad |-> p]
RandName(h) == {x \o s : x \in {h, SwapAll(h)} \cup RandomSubset(2, Handles) \cup {<<>>, Append(h, "a"), SubSeq(h, 2, Len(h)), <<"x">> \o h}, s \in Some(Suffixes) \cup {<<"@twitter">>}}
RandMsg(h) == {Msg(f, "int", t, "reg", n, n) : f \in Some(Forms) \cup {"obj"}, t \in {0} \cup Some(1..5), n \in Some(RandName(h)) \cup {h \o <<"@twitter">>}}
Init ==
  \* names near and far
  \/ \E h \in RandomSubset(NPlain, Handles), s \in Suffixes : \E n \in {h, SwapAll(h)} \cup RandomSubset(2, Handles) \cup {<<>>, Append(h, "a"), SubSeq(h, 2, Len(h)), <<"x">> \o h} :
       \E z \in Some(Sizes), p \in Some({0, 0, 0, 1000, 5000}) : c = Reg(h, Msg("obj", "int", 0, "reg", n \o s, <<"x">>), "ok", z, p)
  \* every form, type and body
  \/ \E f \in Forms, tf \in {"int", "absent", "null", "string", "frac", "huge"}, t \in -1..6, b \in {"reg", "look", "lookep", "mon"} :
       \E h \in RandomSubset(NOdd, Handles) : \E n2 \in Some({h, SwapAll(h), <<"b">>}), own \in Some({TRUE, TRUE, FALSE}) :
       (tf = "int" \/ t = 0) /\ c = Reg(h, Msg(f, tf, t, b, (IF own THEN h ELSE Append(h, "_")) \o <<"@twitter">>, n2 \o <<"@twitter">>), "ok", 100, 0)
  \* every way the server may behave
  \/ \E s \in Srvs, z \in Sizes, p \in {0, 1000, 5000}, f \in Good : \E h \in RandomSubset(NSrv, Handles) :
       c = Reg(h, Msg(f, "int", 0, "reg", SwapAll(h) \o <<"@twitter">>, <<"x">>), s, z, p)
  \* the bot on its stream
  \/ \E i \in 1..NRun : \E bot \in Some(Handles) :
       \E d1 \in Some([from : RandomSubset(2, Handles) \cup {bot, SwapAll(bot)}, prefix : {"yes", "no", "twice", "late"}]),
          d2 \in Some([from : RandomSubset(2, Handles), prefix : {"yes", "yes2", "twice"}]),
          d3 \in Some([from : {bot, SwapAll(bot)} \cup RandomSubset(1, Handles), prefix : {"yes", "no", "late"}]),
          d4 \in Some([from : RandomSubset(3, Handles), prefix : {"yes"}]) :
       \E m1 \in Some(RandMsg(d1.from)), m2 \in Some(RandMsg(d2.from)), m3 \in Some(RandMsg(d3.from)), m4 \in {Msg("obj", "int", 0, "reg", d4.from \o <<"@twitter">>, <<"x">>)} :
       \E s \in Some(Srvs) \cup {"ok"} :
         c = [op |-> "Run", bot |-> bot, srv |-> s, size |-> 500, v |-> i,
              dms |-> << [from |-> d1.from, prefix |-> d1.prefix, m |-> m1], [from |-> d2.from, prefix |-> (IF d2.prefix = "yes2" THEN "yes" ELSE d2.prefix), m |-> m2],
                         [from |-> d3.from, prefix |-> d3.prefix, m |-> m3], [from |-> d4.from, prefix |-> d4.prefix, m |-> m4] >>]
  \* starting it
  \/ \E addr \in {"there", "missing"}, who \in {"same", "other", "case", "denied", "garbage", "empty"}, old \in {0, 1, 3, 205} : \E h \in Some(Handles) :
       c = [op |-> "Start", addr |-> addr, who |-> who, old |-> old, bot |-> h]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
PrintCase == PrintT("HIST\t" \o ToJson(<<c>>))
=============================================================================
