------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications share: the recorded trace and the reporting  *)
(* of mismatches.  A mismatch never blocks the validation, it is printed with *)
(* the properties it violates, so that the rest of the trace is checked too.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* value printed for a mismatch: expected and observed
Mismatch(i, props, field, exp, obs) ==
  PrintT("BAD\t" \o ToString(i) \o "\t" \o ToJson(props) \o "\t" \o field \o "\t" \o
         ToString(exp) \o "\t" \o ToString(obs))
Chk(i, props, field, exp, obs) ==
  IF exp = obs THEN TRUE ELSE Mismatch(i, props, field, exp, obs)
==============================================================================
