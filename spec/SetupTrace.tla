------------------------------ MODULE SetupTrace ------------------------------
(* Validates what the real programs did to the files, and said, against Setup. *)
EXTENDS Setup, TraceLib
VARIABLES l, fs, run, reg
E == Trace[l]
P == {"I01"}
C(field, exp, obs) == Chk(l, P, field, exp, obs)
IsEvent(name) == l \in DOMAIN Trace /\ E.ev = name /\ l' = l + 1 /\ fs' = E.files
There == {f \in Files : fs[f].id # None}
K == [f \in Files |-> fs[f].key]
Lost(old, new, among) == {f \in among : old[f].id # None /\ new[f] # old[f]}
New(old, new) == {f \in Files : old[f].id = None /\ new[f].id # None}
Quiet(field) == C(field, fs, E.files)
\* keys made by the programs: whole, private, matching
WellMade(made) ==
  /\ C("unreadable to others", {}, {f \in made \cap Secret : ~E.files[f].private})
  /\ C("halves match", {}, {p \in Pairs : {p[1], p[2]} \subseteq made /\ E.files[p[1]].key # E.files[p[2]].key})
Off == [on |-> FALSE, key |-> None, str |-> None]
TNew == IsEvent("New") /\ run' = Off /\ reg' = <<>>
TPlace == IsEvent("Place") /\ UNCHANGED <<run, reg>>
          /\ C("others' files", {}, {f \in Files \ {E.f} : E.files[f] # fs[f]})
TEdit == IsEvent("Edit") /\ UNCHANGED <<run, reg>>
Init1(field) ==
  LET made == New(fs, E.files) IN
  /\ C(field, {}, Lost(fs, E.files, Files))
  /\ C("created outside", {}, made \ May(E.who, E.cert, There))
TInit == /\ IsEvent("Init") /\ UNCHANGED <<run, reg>>
         /\ LET made == New(fs, E.files) IN
            /\ Init1("overwritten")
            /\ C("not created", {}, Must(E.who, E.cert, There) \ made)
            /\ WellMade(made)
            /\ C("unusable", {}, {f \in made : E.files[f].key \in {"bad", "public registration"}})
            /\ C("init crashed", FALSE, E.crashed)
\* killed in the midst: files may be missing or partial
TKilled == IsEvent("Killed") /\ UNCHANGED <<run, reg>> /\ Init1("overwritten")
           /\ C("unreadable to others", {}, {f \in New(fs, E.files) \cap Secret : ~E.files[f].private})
\* held up, while somebody else made files
TPaused == /\ IsEvent("Paused") /\ UNCHANGED <<run, reg>>
           /\ Init1("overwritten")
           /\ IF E.late THEN TRUE
              ELSE C("overwritten while held up", {}, Lost(E.mid, E.files, Files))
           /\ C("mixed keys", {}, {p \in Pairs : /\ {p[1], p[2]} \subseteq New(fs, E.files)
                                              /\ E.files[p[1]].key # E.files[p[2]].key
                                              /\ E.meanwhile = "init"})
TStart == /\ IsEvent("Start") /\ reg' = <<>>
          /\ C("server", IF Startable(K) THEN "serves" ELSE "ended", E.res)
          /\ C("overwritten by the server", {}, Lost(fs, E.files, Files))
          /\ C("created by the server", IF E.res = "serves" THEN {"istr"} \ There ELSE {}, IF E.res = "serves" THEN New(fs, E.files) ELSE New(fs, E.files) \ {"istr"})
          /\ IF E.res = "serves" THEN C("root pinned", FALSE, E.files["istr"].key = "bad" /\ "istr" \notin There) ELSE TRUE
          /\ IF E.res = "serves" /\ E.wrote THEN C("process id", "right", E.pid) ELSE TRUE
          /\ run' = IF E.res = "serves" THEN [on |-> TRUE, key |-> K["spriv"], str |-> IF "istr" \in There THEN None ELSE E.files["istr"].key] ELSE Off
TStop == IsEvent("Stop") /\ reg' = <<>> /\ run' = Off /\ Quiet("changed by the server") /\ C("stops", TRUE, E.res \in {"ended", "none"})
TSession ==
  /\ IsEvent("Session") /\ UNCHANGED run
  /\ Quiet("changed by the client")
  /\ C("configured client", IF ClientLoads(K) THEN "yes" ELSE "no", E.loaded)
  /\ C("client ended", "ended", E.end)
  /\ reg' = IF ClientLoads(K) /\ run.on THEN After(E.qs, reg) ELSE reg
  /\ IF ~ClientLoads(K) THEN TRUE
     ELSE LET told == Told(E.qs, reg, Trusts(K, run))
              real == Told(E.qs, reg, TRUE) IN
          \* with another key but the same root, absence is proven all the same
          IF E.told = told \/ (run.on /\ K["istr"] = run.str /\ K["spub"] # run.key /\ Len(E.told) = Len(told)
                               /\ \A i \in DOMAIN told : E.told[i] = told[i] \/ (E.told[i] = real[i] /\ real[i] = "absent")) THEN TRUE
          ELSE Mismatch(l, P, "told", told, E.told)
TInit0 == l = 1 /\ fs = [f \in Files |-> [id |-> None, key |-> None, private |-> TRUE]] /\ run = Off /\ reg = <<>>
TNext == TNew \/ TPlace \/ TEdit \/ TInit \/ TKilled \/ TPaused \/ TStart \/ TStop \/ TSession
TSpec == TInit0 /\ [][TNext]_<<l, fs, run, reg>>
=============================================================================
