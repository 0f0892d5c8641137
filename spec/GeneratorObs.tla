------------------------------ MODULE GeneratorObs ------------------------------
(* Decides whether the functions defined by generated code, and the members they   *)
(* (de)serialize, are those specified by Generator.tla.                            *)
EXTENDS Generator, Json, SequencesExt
CONSTANTS Clauses
VARIABLES o, phase

\* o: [num, tu, obs: for each class [out, in: per format [defined, seq]]]
Expected(t, f, d, k) == [defined |-> Defined(t, f, d, k), seq |-> IF Defined(t, f, d, k) THEN Members(t, f, d, k) ELSE <<>>]
OkDefined(t, f, d, k, e) == e.defined = Defined(t, f, d, k)
\* the order in which members are read from a JSON object does not matter
OkMembers(t, f, d, k, e) ==
    e.defined /\ Defined(t, f, d, k) =>
        LET m == Members(t, f, d, k) IN
        IF f = "json" /\ d = "in" THEN Range(e.seq) = Range(m) ELSE e.seq = m
\* no member of a serializable base class is left out
OkInherited(t, f, d, k, e) ==
    e.defined /\ Defined(t, f, d, k) =>
        \A j \in Ancestors(t, k) : SerializableAnywhere(t, f, j) => Range(Own(t, f, d, j)) \subseteq Range(e.seq)
Accept == \A k \in 1..Len(o.tu), f \in Formats, d \in {"out", "in"} :
             /\ "defined" \in Clauses => OkDefined(o.tu, f, d, k, o.obs[k][f][d])
             /\ "members" \in Clauses => OkMembers(o.tu, f, d, k, o.obs[k][f][d])
             /\ "inherited" \in Clauses => OkInherited(o.tu, f, d, k, o.obs[k][f][d])
Explain == {<<o.tu[k].q, f, d, o.obs[k][f][d], Expected(o.tu, f, d, k)>> : k \in 1..Len(o.tu), f \in Formats, d \in {"out", "in"}}
Init == o \in ToSet(ndJsonDeserialize("obs.ndjson")) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED o
Accepted == phase = 0 \/ Accept \/ (PrintT(<<"REJECT", o.num, {e \in Explain : e[4] # e[5]}>>) /\ FALSE)
===============================================================================
