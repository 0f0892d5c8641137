------------------------------- MODULE JsonMachineMC -------------------------------
(* Model checking of JsonMachine over an exhaustively enumerated set of documents.  *)
(* The documents are also written to a file and replayed into the real library.     *)
EXTENDS JsonMachine, FiniteSetsExt, SequencesExt, Json

CONSTANTS Roots         \* sequence of [ty, depth]
VARIABLES s, d0, o0, root
RootTy == Roots[root].ty

Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
RootsIn == Schema.roots

N(k) == Small(k)
StrA == Str(<<97>>)

\* ---- documents for a type: valid ones and such which deviate in one of the ways users run into -----------------
RECURSIVE Docs(_, _), FieldDocs(_, _, _)
ScalarDocs(ty, n) ==
    CASE ty.k = "bool" -> {BoolV(TRUE)} \cup (IF n > 0 THEN {N(1)} ELSE {})
      [] ty.k \in {"int"} -> {N(5), StrA} \cup (IF n > 0 THEN {IntV(FALSE, <<0,0,0,1,0,0,0,0>>)} ELSE {}) \cup (IF n > 1 THEN {Flt(<<63,248,0,0,0,0,0,0>>), IntV(TRUE, N(3).m), Null} ELSE {})
      [] ty.k = "enum" -> {N(1), StrA}
      [] ty.k = "flt" -> {N(1), StrA}
      [] ty.k = "probe" -> {N(1)}
      [] ty.k \in {"str", "view"} -> {StrA} \cup (IF n > 0 THEN {N(1)} ELSE {})
      [] ty.k = "dt" -> {Str(<<50,48,50,52,45,48,50,45,50,57>>), Str(<<50,48,50,51,45,48,50,45,50,57>>)} \cup (IF n > 0 THEN {N(1)} ELSE {})     \* 2024-02-29, 2023-02-29
      [] ty.k = "ts" -> {Str(<<49,58,50,58,51>>), Str(<<35>>)} \cup (IF n > 0 THEN {Null} ELSE {})                                             \* 1:2:3, #
      [] ty.k = "mono" -> {Null}
Docs(ty, n) ==
    CASE ty.k \in {"seq", "set"} ->
            LET el == Docs(ty.of, n - 1) IN
            {Arr(<<>>), Null} \cup {Arr(<<a>>) : a \in el} \cup {Arr(<<a, b>>) : a \in el, b \in el}
            \cup (IF ty.k = "set" THEN {Arr(<<N(1), StrA, N(1), N(0)>>)} ELSE {})
      [] ty.k = "map" ->
            LET el == Docs(ty.of, n - 1) IN
            {Obj(<<>>), StrA} \cup {Obj(<<[k |-> <<97>>, v |-> a]>>) : a \in el}
            \cup {Obj(<<[k |-> <<97>>, v |-> a], [k |-> <<97>>, v |-> b]>>) : a \in el, b \in el}
            \cup (IF ty.multi THEN {Obj(<<[k |-> <<97>>, v |-> Arr(<<a, b>>)]>>) : a \in el, b \in el} ELSE {})
      [] ty.k = "tup" ->
            LET a == Docs(ty.of[1], n - 1)
                b == Docs(ty.of[2], n - 1)
            IN {Arr(<<x, y>>) : x \in a, y \in b} \cup {Arr(<<x>>) : x \in a} \cup {Obj(<<>>), Arr(<<Null, Null, Null>>)}
      [] ty.k = "opt" -> {Null} \cup Docs(ty.of, n)
      [] ty.k = "var" ->
            LET I(v) == [k |-> IndexKey, v |-> v]
                D(v) == [k |-> DataKey, v |-> v]
            IN UNION {{Obj(<<I(N(k - 1)), D(x)>>) : x \in Docs(ty.of[k], n - 1)} : k \in 1..Len(ty.of)}
               \cup {Null, Obj(<<I(N(0))>>), Obj(<<D(N(0))>>), Obj(<<D(N(0)), I(StrA)>>), Obj(<<I(N(Len(ty.of))), D(N(1))>>), Obj(<<I(IntV(TRUE, N(1).m)), D(N(1))>>),
                     Obj(<<I(IntV(FALSE, <<0,0,0,1,0,0,0,0>>)), D(N(1))>>)}
      [] ty.k = "rec" ->
            {Obj(ms) : ms \in FieldDocs(Flat[ty.n], 1, n)} \cup (IF n > 0 THEN {Arr(<<>>)} ELSE {})
      [] OTHER -> ScalarDocs(ty, n)
\* probes are always present; other members may be missing
FieldDocs(fl, k, n) ==
    IF k > Len(fl) THEN {<<>>}
    ELSE LET rest == FieldDocs(fl, k + 1, n)
             own == {[k |-> fl[k].f.nb, v |-> x] : x \in Docs(fl[k].f.t, n - 1)}
         IN {<<a>> \o r : a \in own, r \in rest} \cup (IF fl[k].f.t.k = "probe" THEN {} ELSE rest)

AllDocs(r) == Docs(Roots[r].ty, Roots[r].depth)
Options == {[we |-> FALSE, thr |-> 0]} \cup {[we |-> TRUE, thr |-> t] : t \in {0, 1, 4, 8, 255}}

Init == root \in 1..Len(Roots) /\ d0 \in AllDocs(root) /\ o0 \in Options /\ s = Machine(RootTy, d0, Default(RootTy), o0)
Next == ~Done(s) /\ s' = Step(s) /\ UNCHANGED <<d0, o0, root>>
Spec == Init /\ [][Next]_<<s, d0, o0, root>> /\ WF_<<s, d0, o0, root>>(Next)

\* ---- properties -----------------------------------------------------------------------------------------------
\* the context is always the path to what is being processed
Members == SelectSeq(s.stk, LAMBDA fr : fr.f = "member")
Arrays == SelectSeq(s.stk, LAMBDA fr : fr.f \in {"seq", "set"} /\ fr.k > 0)
PathMember == LET idx == {k \in 1..Len(s.stk) : s.stk[k].f = "member"} IN IF idx = {} THEN 0 ELSE Max(idx)
ContextIsPath ==
    IF ~o0.we THEN s.st.r = "[document]" /\ s.st.m = "" /\ s.st.i = -1 /\ s.st.errs = <<>>
    ELSE LET p == PathMember IN
         /\ IF p = 0 THEN s.st.r = "[document]" /\ s.st.m = ""
            ELSE LET fl == Flat[s.stk[p - 1].ty.n][s.stk[p].pos] IN s.st.r = fl.own /\ s.st.m = fl.f.n
         /\ (s.st.x = "none" /\ Top(s).f # "seq" /\ Top(s).f # "set" =>
               s.st.i = IF Arrays = <<>> THEN -1 ELSE Arrays[Len(Arrays)].k - 1)
ContextOk == Done(s) \/ ContextIsPath
ContextRestored == Done(s) => s.st.r = "[document]" /\ s.st.m = "" /\ s.st.i = -1
\* exactly the last error can be fatal and it is iff the exception is pending
FatalIsLast ==
    /\ \A k \in 1..(Len(s.st.errs) - 1) : ~Fatal(o0.thr, s.st.errs[k].k)
    /\ (s.st.x = "error") <=> (s.st.errs # <<>> /\ Fatal(o0.thr, s.st.errs[Len(s.st.errs)].k))
\* the machine computes what the denotation says
Agrees == Done(s) =>
    LET r == Pull(RootTy, d0, Default(RootTy), InitState, o0) IN
    /\ r.st.errs = s.st.errs /\ r.st.x = s.st.x /\ r.st.pr = s.st.pr
    /\ s.st.x = "none" => r.v = s.ret /\ r.st = s.st
ErrorsOnlyGrow == [][Len(s'.st.errs) \in {Len(s.st.errs), Len(s.st.errs) + 1} /\ SubSeq(s'.st.errs, 1, Len(s.st.errs)) = s.st.errs]_<<s, d0, o0, root>>
Terminates == <>Done(s)
\* collecting errors has no influence on the result; unknown members and the order of members do not matter
Result(d, o) == Pull(RootTy, d, Default(RootTy), InitState, o).v
Unknown == [k |-> <<63>>, v |-> Arr(<<Null>>)]
DistinctKeys(m) == \A i, j \in 1..Len(m) : m[i].k = m[j].k => i = j
Robust == (s = Machine(RootTy, d0, Default(RootTy), o0) /\ o0.we /\ o0.thr = 0) =>
    /\ Same(RootTy, Result(d0, o0), Result(d0, [we |-> FALSE, thr |-> 0]))
    /\ (RootTy.k = "rec" /\ d0.t = "obj") =>
         /\ Same(RootTy, Result(d0, o0), Result(Obj(<<Unknown>> \o d0.m), o0))
         /\ DistinctKeys(d0.m) => Same(RootTy, Result(d0, o0), Result(Obj(Reverse(d0.m)), o0))
\* members which do not occur in the document keep their value
Untouched == (Done(s) /\ s.st.x = "none" /\ RootTy.k = "rec" /\ d0.t = "obj") =>
    \A k \in 1..Len(Flat[RootTy.n]) : Find(d0.m, Flat[RootTy.n][k].f.nb) = 0 => s.ret.f[k] = Default(RootTy).f[k]

\* ---- export of the documents for replaying them into the real library --------------------------------------------
RECURSIVE ExportFrom(_, _)
ExportFrom(r, acc) == IF r > Len(Roots) THEN acc ELSE ExportFrom(r + 1, acc \o SetToSeq({[r |-> r, d |-> d] : d \in AllDocs(r)}))
Export == TLCGet("distinct") > 0 /\ ndJsonSerialize("docs.ndjson", ExportFrom(1, <<>>))
===============================================================================
