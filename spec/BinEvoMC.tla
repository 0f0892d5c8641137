--------------------------------- MODULE BinEvoMC ---------------------------------
(* A record evolves over program versions: members are added (as_of_version) or dropped *)
(* (until_version) and the highest supported version is increased. Root k is the record  *)
(* of program k. Data is written by any program at any version and read by any program. *)
EXTENDS BinMap, Enumerate, FiniteSetsExt, SequencesExt, Json, TLC
CONSTANTS Roots
VARIABLES writer, reader, val, ver, bytes, res, phase
vars == <<writer, reader, val, ver, bytes, res, phase>>
Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots

MaxVer(k) == Structs[Roots[k].ty.n].ver
Fld(k) == Structs[Roots[k].ty.n].fields
Vers(k) == {Roots[k].vers[j] : j \in 1..Len(Roots[k].vers)}
Bytes(k, v, n) == Encode(Roots[k].ty, v, n, <<>>)
AllVals(k) == Vals(Roots[k].ty, Roots[k].depth)
Init == /\ writer \in 1..Len(Roots) /\ reader = 0 /\ val \in AllVals(writer) /\ ver \in Vers(writer) /\ bytes = <<>> /\ res = Null /\ phase = "object"
Write == phase = "object" /\ phase' = "bytes" /\ bytes' = Bytes(writer, val, ver) /\ UNCHANGED <<writer, reader, val, ver, res>>
Read == phase = "bytes" /\ phase' = "read" /\ reader' \in 1..Len(Roots) /\ res' = Decode(Roots[reader'].ty, Default(Roots[reader'].ty), 0, bytes) /\ UNCHANGED <<writer, val, ver, bytes>>
Next == Write \/ Read
Written == ApplyDefault(MaxVer(writer), ver)
\* index of the member of program k called n, 0 if there is none
Idx(k, n) == IF \E j \in 1..Len(Fld(k)) : Fld(k)[j].n = n THEN CHOOSE j \in 1..Len(Fld(k)) : Fld(k)[j].n = n ELSE 0
\* members which are part of the data are restored if the reader's program knows the member the same way, others keep their default
Compatible == (phase = "read" /\ Written <= MaxVer(reader)) =>
    /\ res.st.x = "none" /\ res.st.p = Len(bytes)
    /\ \A j \in 1..Len(Fld(reader)) :
         LET w == Idx(writer, Fld(reader)[j].n)
             there == w # 0 /\ InVersion(Roots[writer].ty.n, w, Written)
             want == IF there THEN val.f[w].v ELSE Default(Roots[reader].ty).f[j].v
         IN Same(Fld(reader)[j].t, want, Result(Roots[reader].ty, res).f[j].v)
\* data of a newer program is rejected unless it has been written at a version which is supported
Rejected == (phase = "read" /\ Written > MaxVer(reader)) => res.st.x = "version" /\ res.st.pres = Size8(Written) /\ res.st.max = MaxVer(reader) /\ res.st.rec = Structs[Roots[reader].ty.n].q
\* assumption about the records: the programs agree about the members of each version
AllPairs == \A a, b \in 1..Len(Roots) : \A n \in 1..(IF MaxVer(a) < MaxVer(b) THEN MaxVer(a) ELSE MaxVer(b)) :
    {Fld(a)[j].n : j \in {i \in 1..Len(Fld(a)) : InVersion(Roots[a].ty.n, i, n)}} = {Fld(b)[j].n : j \in {i \in 1..Len(Fld(b)) : InVersion(Roots[b].ty.n, i, n)}}
Export == TLCGet("distinct") > 0 /\ ndJsonSerialize("vals.ndjson",
    SetToSeq(UNION {{[reader |-> r, b |-> Bytes(w, v, n)] : v \in AllVals(w), n \in Vers(w), r \in 1..Len(Roots)} : w \in 1..Len(Roots)}))
===============================================================================
