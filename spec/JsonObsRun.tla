------------------------------- MODULE JsonObsRun -------------------------------
(* JsonObs applied to files written by the conformance driver.                  *)
EXTENDS JsonObs, Nested, Json, SequencesExt
Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
VARIABLES o, phase
\* every observation is an initial state and decided when doing the step (so it is done by all workers in parallel)
Init == o \in {Restored(x) : x \in ToSet(ndJsonDeserialize("obs.ndjson"))} /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED o
Accepted == phase = 0 \/ Accept(o) \/ (PrintT(<<"REJECT", o.num, Explain(o)>>) /\ FALSE)
===============================================================================
