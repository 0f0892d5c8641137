-------------------------------- MODULE BinFeedMC --------------------------------
(* The environment feeds the reader arbitrary bytes one by one. The reader waits for  *)
(* further bytes ("io") until an object is complete or the data is rejected; further  *)
(* bytes never change a verdict. All byte strings at which a verdict is made (and all *)
(* incomplete ones of maximal length) are replayed into the real library.             *)
EXTENDS BinMap, FiniteSetsExt, SequencesExt, Json, TLC

CONSTANTS Roots         \* sequence of [ty, depth, alpha]: depth = maximal number of bytes, alpha = bytes which are fed
VARIABLES root, bytes, verdict
vars == <<root, bytes, verdict>>
Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots

Run(r, b) == Decode(Roots[r].ty, Default(Roots[r].ty), 0, b)
Judge(r, b) == LET d == Run(r, b) IN [x |-> d.st.x, p |-> d.st.p, v |-> IF d.st.x = "none" THEN Result(Roots[r].ty, d) ELSE Null]
Init == root \in 1..Len(Roots) /\ bytes = <<>> /\ verdict = Judge(root, <<>>)
\* one byte more than required is fed to see that it is ignored
Open == verdict.x = "io" \/ (verdict.x = "none" /\ verdict.p = Len(bytes))
Feed == /\ Len(bytes) < Roots[root].depth /\ Open
        /\ \E k \in 1..Len(Roots[root].alpha) : bytes' = Append(bytes, Roots[root].alpha[k])
        /\ verdict' = Judge(root, bytes')
        /\ UNCHANGED root
Next == Feed
Verdicts == verdict.x \in {"none", "io", "conv", "version"} /\ verdict.p <= Len(bytes)
\* more data never changes what has been decided
Final == [][verdict.x # "io" => verdict' = verdict]_vars
\* a complete object consists of at least one byte, nothing but the version is rejected with "version"
Sane == (verdict.x = "none" /\ verdict.p = 0) => Roots[root].ty.k = "rec"
Emit == (verdict.x # "io" \/ Len(bytes) = Roots[root].depth) => PrintT("BYTES" \o ToJson([r |-> root, b |-> bytes]))
===============================================================================
