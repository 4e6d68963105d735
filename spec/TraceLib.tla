------------------------------ MODULE TraceLib ------------------------------
(* Validation of recorded traces: every trace is one initial state; a trace is accepted if some behaviour of the    *)
(* specification consumes all of its events. Reach is used as a CONSTRAINT, Accept as the POSTCONDITION (1 worker).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

Reach(t, l) == IF TLCGetOrDefault(t, 0) < l THEN TLCSet(t, l) ELSE TRUE

(* the call returned; an exception or a hang is recorded as [exc |-> ...] *)
Returned(out) == "exc" \notin DOMAIN out

Accept ==
  LET rejected == {i \in 1 .. Len(Traces) : TLCGet(i) <= Len(Traces[i].evs)} IN
  /\ TLCGet("stats").distinct > 0
  /\ \A i \in rejected : PrintT("OUT " \o ToJson([kind |-> "reject", t |-> i, l |-> TLCGet(i)]))
  /\ PrintT("OUT " \o ToJson([kind |-> "accepted", n |-> Len(Traces) - Cardinality(rejected)]))
=============================================================================
