-------------------------------- MODULE BinMutMC ---------------------------------
(* Damaged data: the bytes written for an object are altered at one place (replaced,   *)
(* removed, inserted, exchanged) before they are read. All resulting byte strings are    *)
(* replayed into the real library.                                                    *)
EXTENDS BinMap, Enumerate, FiniteSetsExt, SequencesExt, Json, TLC
CONSTANTS Roots         \* sequence of [ty, vals, alpha]: vals = sequence of values to start with
VARIABLES root, bytes, phase, verdict
vars == <<root, bytes, phase, verdict>>
Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots

Addrs == [k \in 1..400 |-> IF k % 3 = 0 THEN [Pow2(62) EXCEPT ![7] = k \div 256, ![8] = k % 256] ELSE IF k % 3 = 1 THEN Size8(100 + k) ELSE [Pow2(40) EXCEPT ![7] = k \div 256, ![8] = k % 256]]
Run(r, b) == Decode(Roots[r].ty, Default(Roots[r].ty), 0, b)
None == [x |-> "-", p |-> 0]
Init == root \in 1..Len(Roots) /\ (\E k \in 1..Len(Roots[root].vals) : bytes = Encode(Roots[root].ty, Roots[root].vals[k], 0, Addrs)) /\ phase = "written" /\ verdict = None
Alpha(b) == {Roots[root].alpha[k] : k \in 1..Len(Roots[root].alpha)} \cup {(b + 1) % 256, (b + 255) % 256, (b + 128) % 256}
Damage == /\ phase = "written" /\ phase' = "damaged" /\ UNCHANGED <<root, verdict>>
          /\ \E k \in 1..Len(bytes) :
                \/ \E b \in Alpha(bytes[k]) : bytes' = [bytes EXCEPT ![k] = b]
                \/ bytes' = SubSeq(bytes, 1, k - 1) \o SubSeq(bytes, k + 1, Len(bytes))
                \/ \E b \in {0, 1, 2, 128, 255} : bytes' = SubSeq(bytes, 1, k - 1) \o <<b>> \o SubSeq(bytes, k, Len(bytes))
                \/ k < Len(bytes) /\ bytes' = [bytes EXCEPT ![k] = bytes[k + 1], ![k + 1] = bytes[k]]
Read == phase = "damaged" /\ phase' = "read" /\ UNCHANGED <<root, bytes>>
        /\ LET d == Run(root, bytes) IN verdict' = [x |-> d.st.x, p |-> d.st.p]
Next == Damage \/ Read
Verdicts == phase = "read" => verdict.x \in {"none", "io", "conv", "version"} /\ verdict.p <= Len(bytes)
Emit == phase = "read" => PrintT("BYTES" \o ToJson([r |-> root, b |-> bytes]))
===============================================================================
