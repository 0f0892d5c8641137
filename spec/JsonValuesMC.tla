------------------------------- MODULE JsonValuesMC -------------------------------
(* Serialization followed by deserialization over an exhaustively enumerated set of  *)
(* objects, as a transition system object -> document -> object. The objects are also  *)
(* written to a file and replayed into the real library.                             *)
EXTENDS JsonObs, Enumerate, FiniteSetsExt, SequencesExt, Json

CONSTANTS Roots         \* sequence of [ty, depth]
VARIABLES root, val, doc, res, phase
RootTy == Roots[root].ty

Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots
AllClauses == {"doc", "rt"}

AllVals(r) == Vals(Roots[r].ty, Roots[r].depth)
Opt == [we |-> TRUE, thr |-> 255]

Init2 == root \in 1..Len(Roots) /\ val \in AllVals(root) /\ doc = AnyV /\ res = AnyV /\ phase = 0
Serialize == phase = 0 /\ phase' = 1 /\ doc' = ToDoc(RootTy, val) /\ UNCHANGED <<root, val, res>>
\* deserialization into a fresh object or into one which holds other data
Deserialize == phase = 1 /\ phase' = 2 /\ UNCHANGED <<root, val, doc>>
    /\ \E cur \in {Default(RootTy), Filled(RootTy, 3)} : res' = Pull(RootTy, doc, cur, InitState, Opt)
Next2 == Serialize \/ Deserialize
\* views are only supported for serialization
RECURSIVE HasView(_)
HasView(ty) == IF ty.k = "view" THEN TRUE ELSE IF ty.k \in {"seq", "set", "map", "opt"} THEN HasView(ty.of) ELSE FALSE
RoundTrip == (phase = 2 /\ ~HasView(RootTy)) => res.st = InitState /\ Same(RootTy, Kept(RootTy, val), res.v)
\* different objects have different documents (apart from excluded members): nothing is lost
DocDetermines == phase = 1 => SameDoc(doc, doc) /\ doc.t \in {"null", "bool", "int", "flt", "str", "arr", "obj"}
\* the names within an object are unique
RECURSIVE UniqueNames(_)
UniqueNames(d) == CASE d.t = "arr" -> \A k \in 1..Len(d.e) : UniqueNames(d.e[k])
                    [] d.t = "obj" -> \A k \in 1..Len(d.m) : UniqueNames(d.m[k].v) /\ \A j \in 1..Len(d.m) : d.m[j].k = d.m[k].k => j = k
                    [] OTHER -> TRUE
NamesUnique == phase = 1 => UniqueNames(doc)
RECURSIVE ExportFrom(_, _)
ExportFrom(r, acc) == IF r > Len(Roots) THEN acc ELSE ExportFrom(r + 1, acc \o SetToSeq({[r |-> r, v |-> v] : v \in AllVals(r)}))
Export == TLCGet("distinct") > 0 /\ ndJsonSerialize("vals.ndjson", ExportFrom(1, <<>>))
===============================================================================
