------------------------------- MODULE BinValuesMC -------------------------------
(* Writing and reading over an exhaustively enumerated set of objects and versions as *)
(* a transition system object -> bytes -> object. The objects are also written to a   *)
(* file and replayed into the real library.                                           *)
EXTENDS BinMap, Enumerate, FiniteSetsExt, SequencesExt, Json, TLC

CONSTANTS Roots         \* sequence of [ty, depth, vers]
VARIABLES root, val, ver, bytes, res, phase
vars == <<root, val, ver, bytes, res, phase>>
RootTy == Roots[root].ty

Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots

\* ---- shared pointers: every pointer refers to its own object or all pointers of a type refer to the same one ------
\* st: [n |-> number of objects, by |-> type -> object]
RECURSIVE NumberRefs(_, _, _, _), NumberSeq(_, _, _, _, _, _)
NumberRefs(ty, v, share, st) ==
    IF v.t = "null" THEN W(v, st)
    ELSE CASE ty.k \in {"seq", "set", "tup"} -> LET T == IF ty.k = "tup" THEN ty.of ELSE [k \in 1..Len(v.e) |-> ty.of]
                                                    r == NumberSeq(T, v.e, share, 1, st, <<>>) IN W([v EXCEPT !.e = r.v], r.num)
           [] ty.k = "map" -> LET T == [k \in 1..Len(v.e) |-> ty.of]
                                  r == NumberSeq(T, [k \in 1..Len(v.e) |-> v.e[k].v], share, 1, st, <<>>) IN
                              W([v EXCEPT !.e = [k \in 1..Len(v.e) |-> [k |-> v.e[k].k, v |-> r.v[k]]]], r.num)
           [] ty.k = "opt" /\ ty.p # "sptr" -> LET r == NumberRefs(ty.of, v.v, share, st) IN W(Some(r.v), r.num)
           [] ty.k = "opt" -> LET same == SelectSeq(st.by, LAMBDA e : e.x = ty.of.x) IN
                              IF share /\ Len(same) > 0 THEN W([t |-> "ref", id |-> same[1].n], st)
                              ELSE LET n == st.n + 1
                                       r == NumberRefs(ty.of, v.v, share, [n |-> n, by |-> Append(st.by, [x |-> ty.of.x, n |-> n])])
                                   IN W([t |-> "ref", id |-> n, v |-> r.v], r.num)
           [] ty.k = "var" -> LET r == NumberRefs(ty.of[v.i + 1], v.v, share, st) IN W([v EXCEPT !.v = r.v], r.num)
           [] ty.k = "rec" -> LET T == [k \in 1..Len(v.f) |-> Flat[ty.n][k].f.t]
                                  r == NumberSeq(T, [k \in 1..Len(v.f) |-> v.f[k].v], share, 1, st, <<>>) IN
                              W([v EXCEPT !.f = [k \in 1..Len(v.f) |-> [n |-> v.f[k].n, v |-> r.v[k]]]], r.num)
           [] OTHER -> W(v, st)
NumberSeq(T, e, share, k, st, acc) ==
    IF k > Len(e) THEN W(acc, st)
    ELSE LET r == NumberRefs(T[k], e[k], share, st) IN NumberSeq(T, e, share, k + 1, r.num, Append(acc, r.v))

RECURSIVE HasRef(_, _)
HasRef(ty, d) == IF d = 0 THEN FALSE
                 ELSE IF ty.k = "opt" THEN ty.p = "sptr" \/ HasRef(ty.of, d - 1)
                 ELSE IF ty.k \in {"seq", "set", "map"} THEN HasRef(ty.of, d - 1)
                 ELSE IF ty.k \in {"tup", "var"} THEN \E k \in 1..Len(ty.of) : HasRef(ty.of[k], d - 1)
                 ELSE IF ty.k = "rec" THEN \E k \in 1..Len(Flat[ty.n]) : HasRef(Flat[ty.n][k].f.t, d - 1)
                 ELSE FALSE
AllVals(r) == {NumberRefs(Roots[r].ty, v, s, [n |-> 0, by |-> <<>>]).v : v \in Vals(Roots[r].ty, Roots[r].depth), s \in IF HasRef(Roots[r].ty, 5) THEN BOOLEAN ELSE {FALSE}}
Vers(r) == {Roots[r].vers[k] : k \in 1..Len(Roots[r].vers)}

\* identifiers of objects: small ones and one which needs 8 bytes
Addr(k) == IF k % 3 = 0 THEN Pow2(63) ELSE IF k % 3 = 1 THEN Size8(100 + k) ELSE Pow2(40)
Addrs == [k \in 1..60 |-> IF k % 3 = 0 THEN [Pow2(62) EXCEPT ![8] = k] ELSE IF k % 3 = 1 THEN Size8(100 + k) ELSE [Pow2(40) EXCEPT ![8] = k]]

Init == root \in 1..Len(Roots) /\ val \in AllVals(root) /\ ver \in Vers(root) /\ bytes = <<>> /\ res = AnyV /\ phase = "object"
Write == phase = "object" /\ phase' = "bytes" /\ bytes' = Encode(RootTy, val, ver, Addrs) /\ UNCHANGED <<root, val, ver, res>>
\* reading with the version which has been written
Read == phase = "bytes" /\ phase' = "read" /\ res' = Decode(RootTy, Default(RootTy), ver, bytes \o <<3, 1, 4>>) /\ UNCHANGED <<root, val, ver, bytes>>
\* the stream ends prematurely
Cut == phase = "bytes" /\ phase' = "cut" /\ \E n \in 0..(Len(bytes) - 1) : bytes' = SubSeq(bytes, 1, n) /\ res' = Decode(RootTy, Default(RootTy), ver, bytes') /\ UNCHANGED <<root, val, ver>>
NextRt == Write \/ Read
Next == Write \/ Read \/ Cut
\* everything comes back and exactly what has been written is consumed
RoundTrip == phase = "read" => res.st.x = "none" /\ res.st.p = Len(bytes) /\ Same(RootTy, KeptB(RootTy, val, Default(RootTy), ver), Result(RootTy, res))
\* a premature end is never mistaken for the end of the object
CutDetected == phase = "cut" => res.st.x = "io"
BytesOk == phase # "object" => \A k \in 1..Len(bytes) : bytes[k] \in 0..255
RECURSIVE ExportFrom(_, _)
ExportFrom(r, acc) == IF r > Len(Roots) THEN acc ELSE ExportFrom(r + 1, acc \o SetToSeq({[r |-> r, v |-> v, ver |-> x] : v \in AllVals(r), x \in Vers(r)}))
Export == TLCGet("distinct") > 0 /\ ndJsonSerialize("vals.ndjson", ExportFrom(1, <<>>))
===============================================================================
