---------------------------------- MODULE JsonMap -------------------------------
(* The JSON side of the library: the documented mapping from C++ objects to     *)
(* JSON documents (ToDoc) and the meaning of deserialization (Pull / FromJson)  *)
(* as a function of type, document, present object and error handling options.  *)
EXTENDS Values
LOCAL INSTANCE Chrono

\* documents: null | bool{b} | int{n,m} | flt{x} | str{s} | arr{e} | obj{m: <<[k, v]>>}
Arr(e) == [t |-> "arr", e |-> e]
Obj(m) == [t |-> "obj", m |-> m]

\* ---- serialization -------------------------------------------------------------------
IndexKey == <<105, 110, 100, 101, 120>>     \* "index"
DataKey == <<100, 97, 116, 97>>             \* "data"

RECURSIVE ToDoc(_, _), FirstKeys(_, _, _)
FirstKeys(e, k, acc) ==
    IF k > Len(e) THEN acc
    ELSE FirstKeys(e, k + 1, IF \E j \in 1..Len(acc) : acc[j] = e[k].k THEN acc ELSE Append(acc, e[k].k))
ToDoc(ty, v) ==
    CASE ty.k = "bool" -> BoolV(v.b)
      [] ty.k \in {"int", "enum", "probe"} -> IntV(v.n, v.m)
      [] ty.k = "flt" -> Flt(v.x)
      [] ty.k = "str" -> Str(v.s)
      [] ty.k = "view" -> IF v.t = "null" THEN Null ELSE Str(v.s)
      [] ty.k = "mono" -> Null
      [] ty.k = "dt" -> Str(IsoText(v.m))
      [] ty.k = "ts" -> IF SpanKnown(v.m) THEN Str(SpanText(v.n, v.m)) ELSE AnyV
      [] ty.k \in {"seq", "set"} -> Arr([k \in 1..Len(v.e) |-> ToDoc(ty.of, v.e[k])])
      [] ty.k = "map" /\ ~ty.multi -> Obj([k \in 1..Len(v.e) |-> [k |-> v.e[k].k, v |-> ToDoc(ty.of, v.e[k].v)]])
      [] ty.k = "map" /\ ty.multi ->
            LET keys == FirstKeys(v.e, 1, <<>>) IN
            Obj([k \in 1..Len(keys) |-> [k |-> keys[k], v |->
                LET P(x) == x.k = keys[k]
                    sel == SelectSeq(v.e, P)
                IN Arr([j \in 1..Len(sel) |-> ToDoc(ty.of, sel[j].v)])]])
      [] ty.k = "tup" -> Arr([k \in 1..Len(v.e) |-> ToDoc(ty.of[k], v.e[k])])
      [] ty.k = "opt" -> IF v.t = "null" THEN Null ELSE ToDoc(ty.of, v.v)
      [] ty.k = "var" -> Obj(<<[k |-> IndexKey, v |-> Small(v.i)], [k |-> DataKey, v |-> ToDoc(ty.of[v.i + 1], v.v)]>>)
      [] ty.k = "rec" ->
            LET fl == Flat[ty.n]
                Sel == SelectSeq([k \in 1..Len(fl) |-> k], LAMBDA k : fl[k].f.push)
            IN Obj([j \in 1..Len(Sel) |-> [k |-> fl[Sel[j]].f.nb, v |-> ToDoc(fl[Sel[j]].f.t, v.f[Sel[j]].v)]])

\* documents are compared up to the order of the members of objects; numbers by value
RECURSIVE SameDoc(_, _)
SameDoc(a, b) ==
    IF a.t = "any" THEN TRUE
    ELSE IF a.t = "flt" /\ b.t = "int" THEN IntToDbl(b.n, b.m) = a.x
    ELSE IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "null" -> TRUE
           [] a.t = "bool" -> a.b = b.b
           [] a.t = "int" -> a.n = b.n /\ a.m = b.m
           [] a.t = "flt" -> a.x = b.x
           [] a.t = "str" -> a.s = b.s
           [] a.t = "arr" -> Len(a.e) = Len(b.e) /\ \A k \in 1..Len(a.e) : SameDoc(a.e[k], b.e[k])
           [] a.t = "obj" ->
                /\ Len(a.m) = Len(b.m)
                /\ \A k \in 1..Len(a.m) :
                     LET P(x) == x.k = a.m[k].k
                         sa == SelectSeq(a.m, P)
                         sb == SelectSeq(b.m, P)
                     IN Len(sa) = Len(sb) /\ \A j \in 1..Len(sa) : SameDoc(sa[j].v, sb[j].v)

\* ---- deserialization --------------------------------------------------------------------
JType(d) == CASE d.t = "null" -> "Null" [] d.t = "bool" -> "Bool" [] d.t \in {"int", "flt"} -> "Number" [] d.t = "str" -> "String" [] d.t = "arr" -> "Array" [] d.t = "obj" -> "Object"
ExpType(ty) == CASE ty.k = "bool" -> "Bool" [] ty.k \in {"int", "enum", "flt"} -> "Number" [] ty.k \in {"str", "view", "dt", "ts"} -> "String"
                 [] ty.k \in {"seq", "set", "tup"} -> "Array" [] OTHER -> "Object"

FlagOf(k) == CASE k = "TypeMismatch" -> 1 [] k = "ArraySizeMismatch" -> 2 [] k = "ConversionError" -> 4
               [] k = "UnexpectedDuplicate" -> 8 [] k = "InvalidVariantObject" -> 16 [] k = "InvalidVariantIndex" -> 32
Fatal(thr, k) == (thr \div FlagOf(k)) % 2 = 1

\* context: record, member ("" = none), index (-1 = none); x: exception; pr: log of the probes
InitState == [errs |-> <<>>, r |-> "[document]", m |-> "", i |-> -1, x |-> "none", pr |-> <<>>]
\* o: options [we: errors are collected, thr: flags of fatal errors]
Report(st, o, k, e, a) ==
    IF ~o.we THEN st
    ELSE [st EXCEPT !.errs = Append(@, [k |-> k, e |-> e, a |-> a, r |-> st.r, m |-> st.m, i |-> st.i]), !.x = IF Fatal(o.thr, k) THEN "error" ELSE @]
Mismatch(ty, d, st, o) == Report(st, o, "TypeMismatch", ExpType(ty), JType(d))
R(v, st) == [v |-> v, st |-> st]

\* position of first member with the specified name (0 if there is none)
Find(m, key) == IF \E k \in 1..Len(m) : m[k].k = key THEN CHOOSE k \in 1..Len(m) : m[k].k = key /\ \A j \in 1..(k - 1) : m[j].k # key ELSE 0

RECURSIVE Pull(_, _, _, _, _), PullElems(_, _, _, _, _, _), PullSet(_, _, _, _, _, _), PullTup(_, _, _, _, _, _), PullMap(_, _, _, _, _, _), PullMulti(_, _, _, _, _, _, _), PullFields(_, _, _, _, _, _)

PullInt(ty, d, cur, st, o) ==
    IF d.t \notin {"int", "flt"} THEN R(cur, Mismatch(ty, d, st, o))
    ELSE LET tr == IF d.t = "int" THEN [ok |-> TRUE, n |-> d.n, m |-> d.m] ELSE Trunc(d.x) IN
         IF tr.ok /\ Fits(tr.n, tr.m, ty.w, ty.s)
         THEN R(IntV(tr.n /\ tr.m # Zero8, tr.m), st)
         ELSE R(cur, Report(st, o, "ConversionError", "Number", "Number"))
FltOf(ty, d) ==
    LET x == IF d.t = "int" THEN IntToDbl(d.n, d.m) ELSE d.x IN
    IF ty.w = 64 THEN Flt(x)
    ELSE LET f == DblToF32(x) IN IF f = <<>> THEN AnyV ELSE Flt(f)
PullFlt(ty, d, cur, st, o) == IF d.t \notin {"int", "flt"} THEN R(cur, Mismatch(ty, d, st, o)) ELSE R(FltOf(ty, d), st)
PullEnum(ty, d, cur, st, o) ==
    IF d.t # "int" \/ ~Fits(d.n, d.m, 64, ty.s) THEN R(cur, Mismatch(ty, d, st, o))
    ELSE IF Fits(d.n, d.m, ty.w, ty.s) THEN R(IntV(d.n, d.m), st)
    ELSE R(cur, Report(st, o, "ConversionError", "Number", "Number"))
\* custom code which logs the context and reports errors itself (of whatever kind; the context is determined by the library)
PullProbe(d, st, o) ==
    LET ok == d.t = "int" /\ Fits(d.n, d.m, 32, TRUE)
        v == IF ok THEN IntV(d.n, d.m) ELSE IntV(FALSE, Zero8)
        Own(s) == CASE ok -> s
                    [] d.t = "null" -> Report(s, o, "TypeMismatch", "Bool", "Null")
                    [] d.t = "bool" -> IF d.b THEN Report(s, o, "ConversionError", "Bool", "Bool") ELSE Report(s, o, "TypeMismatch", "Object", "Bool")
                    [] d.t = "str" -> Report(s, o, "TypeMismatch", "Number", "String")
                    [] d.t = "arr" -> Report(s, o, "ArraySizeMismatch", "Array", "Array")
                    [] d.t = "obj" -> Report(s, o, "UnexpectedDuplicate", "Object", "Object")
                    [] d.t = "flt" -> Report(s, o, "InvalidVariantIndex", "Number", "Number")
                    [] OTHER -> Report(s, o, "InvalidVariantObject", "Object", "Object")
    IN
    R(v, Own([st EXCEPT !.pr = Append(@, IF o.we THEN [r |-> st.r, m |-> st.m, i |-> st.i, ne |-> Len(st.errs), v |-> v] ELSE [r |-> "", m |-> "", i |-> -1, ne |-> -1, v |-> v])]))
\* date/time values: conversion has a precision of one tick; "open": the result is not specified
PullTime(ty, d, cur, st, o) ==
    IF d.t # "str" THEN R(cur, Mismatch(ty, d, st, o))
    ELSE LET p == IF ty.k = "dt" THEN ParseIso(d.s) ELSE ParseSpan(d.s) IN
         CASE p.k = "ok" -> R([t |-> "near", n |-> p.n, m |-> p.m], st)
           [] p.k = "bad" -> R(cur, Report(st, o, "ConversionError", "String", "String"))
           [] p.k = "open" -> R(cur, [st EXCEPT !.x = "open"])

\* elements of an array which become elements of a sequence; simple matching elements of long arrays are taken at once (the same
\* as taking one after another which takes too long because the result is copied for each of them)
Plain(ty, d) == (ty.k = "int" /\ d.t = "int" /\ Fits(d.n, d.m, ty.w, ty.s)) \/ (ty.k = "str" /\ d.t = "str") \/ (ty.k = "bool" /\ d.t = "bool")
PullElems(ty, es, k, acc, st, o) ==
    IF st.x # "none" \/ k > Len(es) THEN R(acc, st)
    ELSE IF Len(es) > 2000 /\ Plain(ty, es[k]) THEN
         LET bad == {j \in k..Len(es) : ~Plain(ty, es[j])}
             n == IF bad = {} THEN Len(es) + 1 ELSE CHOOSE j \in bad : \A i \in bad : j <= i
         IN PullElems(ty, es, n, acc \o [j \in 1..(n - k) |-> Pull(ty, es[k + j - 1], Default(ty), InitState, o).v], [st EXCEPT !.i = IF o.we THEN n - 2 ELSE @], o)
    ELSE LET r == Pull(ty, es[k], Default(ty), [st EXCEPT !.i = IF o.we THEN k - 1 ELSE @], o) IN PullElems(ty, es, k + 1, Append(acc, r.v), r.st, o)
PullSet(ty, es, k, acc, st, o) ==
    IF st.x # "none" \/ k > Len(es) THEN R(acc, st)
    ELSE LET r == Pull(ty.of, es[k], Default(ty.of), [st EXCEPT !.i = IF o.we THEN k - 1 ELSE @], o) IN
         IF r.st.x # "none" THEN R(acc, r.st)
         ELSE IF ~ty.multi /\ \E j \in 1..Len(acc) : Same(ty.of, acc[j], r.v)
              THEN PullSet(ty, es, k + 1, acc, Report(r.st, o, "UnexpectedDuplicate", "Array", "Array"), o)
              ELSE PullSet(ty, es, k + 1, Append(acc, r.v), r.st, o)
PullTup(tys, es, k, cur, st, o) ==
    IF st.x # "none" \/ k > Len(tys) THEN R(cur, st)
    ELSE LET r == Pull(tys[k], es[k], cur[k], st, o) IN PullTup(tys, es, k + 1, [cur EXCEPT ![k] = r.v], r.st, o)
PullMap(ty, m, k, acc, st, o) ==
    IF st.x # "none" \/ k > Len(m) THEN R(acc, st)
    ELSE LET f == Find(acc, m[k].k)
             r == Pull(ty.of, m[k].v, IF f = 0 THEN Default(ty.of) ELSE acc[f].v, st, o)
         IN PullMap(ty, m, k + 1, IF f = 0 THEN Append(acc, [k |-> m[k].k, v |-> r.v]) ELSE [acc EXCEPT ![f].v = r.v], r.st, o)
\* j: position within the array of values with the same key
PullMulti(ty, m, k, j, acc, st, o) ==
    IF st.x # "none" \/ k > Len(m) THEN R(acc, st)
    ELSE IF m[k].v.t # "arr" THEN LET r == Pull(ty.of, m[k].v, Default(ty.of), st, o) IN PullMulti(ty, m, k + 1, 1, Append(acc, [k |-> m[k].k, v |-> r.v]), r.st, o)
    ELSE IF j > Len(m[k].v.e) THEN PullMulti(ty, m, k + 1, 1, acc, st, o)
    ELSE LET r == Pull(ty.of, m[k].v.e[j], Default(ty.of), st, o) IN PullMulti(ty, m, k, j + 1, Append(acc, [k |-> m[k].k, v |-> r.v]), r.st, o)
\* members of a record; each is looked up by name, missing ones are left as they are
PullFields(fl, m, k, cur, st, o) ==
    IF st.x # "none" \/ k > Len(fl) THEN R(cur, st)
    ELSE LET pos == IF fl[k].f.pull THEN Find(m, fl[k].f.nb) ELSE 0 IN
         IF pos = 0 THEN PullFields(fl, m, k + 1, cur, st, o)
         ELSE LET inner == IF o.we THEN [st EXCEPT !.r = IF fl[k].own = "" THEN @ ELSE fl[k].own, !.m = fl[k].f.n] ELSE st
                  r == Pull(fl[k].f.t, m[pos].v, cur[k].v, inner, o)
              IN PullFields(fl, m, k + 1, [cur EXCEPT ![k].v = r.v], [r.st EXCEPT !.r = st.r, !.m = st.m], o)

PullObj(ty, m, cur, st, o) ==
    LET r == PullFields(Flat[ty.n], m, 1, cur.f, st, o) IN R([t |-> "rec", f |-> r.v], r.st)

\* restores the index of the enclosing array
Back(st, i) == [st EXCEPT !.i = i]

Pull(ty, d, cur, st, o) ==
    CASE ty.k = "bool" -> IF d.t = "bool" THEN R(BoolV(d.b), st) ELSE R(cur, Mismatch(ty, d, st, o))
      [] ty.k = "int" -> PullInt(ty, d, cur, st, o)
      [] ty.k = "flt" -> PullFlt(ty, d, cur, st, o)
      [] ty.k = "enum" -> PullEnum(ty, d, cur, st, o)
      [] ty.k = "probe" -> PullProbe(d, st, o)
      [] ty.k \in {"dt", "ts"} -> PullTime(ty, d, cur, st, o)
      [] ty.k = "str" -> IF d.t = "str" THEN R(Str(d.s), st) ELSE R(cur, Mismatch(ty, d, st, o))
      [] ty.k = "view" -> IF d.t = "str" THEN R(cur, st) ELSE R(cur, Mismatch(ty, d, st, o))
      [] ty.k = "seq" -> IF d.t # "arr" THEN R(cur, Mismatch(ty, d, st, o))
                         ELSE LET r == PullElems(ty.of, d.e, 1, <<>>, st, o) IN R([t |-> "seq", e |-> r.v], Back(r.st, st.i))
      [] ty.k = "set" -> IF d.t # "arr" THEN R(cur, Mismatch(ty, d, st, o))
                         ELSE LET r == PullSet(ty, d.e, 1, <<>>, st, o) IN R([t |-> "set", e |-> r.v], Back(r.st, st.i))
      [] ty.k = "map" -> IF d.t # "obj" THEN R(cur, Mismatch(ty, d, st, o))
                         ELSE LET r == IF ty.multi THEN PullMulti(ty, d.m, 1, 1, <<>>, st, o) ELSE PullMap(ty, d.m, 1, <<>>, st, o) IN R([t |-> "map", e |-> r.v], r.st)
      [] ty.k = "tup" -> IF d.t # "arr" THEN R(cur, Mismatch(ty, d, st, o))
                         ELSE IF Len(d.e) # Len(ty.of) THEN R(cur, Report(st, o, "ArraySizeMismatch", "Array", "Array"))
                         ELSE LET r == PullTup(ty.of, d.e, 1, cur.e, st, o) IN R([t |-> "tup", e |-> r.v], r.st)
      [] ty.k = "opt" -> IF d.t = "null" THEN R(Null, st)
                         ELSE LET r == Pull(ty.of, d, Default(ty.of), st, o) IN R(Some(r.v), r.st)
      [] ty.k = "var" ->
            IF d.t # "obj" THEN R(cur, Mismatch(ty, d, st, o))
            ELSE LET ip == Find(d.m, IndexKey)
                     dp == Find(d.m, DataKey)
                 IN IF ip = 0 \/ dp = 0 THEN R(cur, Report(st, o, "InvalidVariantObject", "Object", "Object"))
                    ELSE LET iv == d.m[ip].v IN
                         IF ~(iv.t = "int" /\ ~iv.n) THEN R(cur, Report(st, o, "InvalidVariantIndex", "Number", JType(iv)))
                         ELSE IF ~Leq(iv.m, Small(Len(ty.of) - 1).m) THEN R(cur, Report(st, o, "InvalidVariantIndex", "Number", "Number"))
                         ELSE LET a == ty.of[iv.m[8] + 1] IN
                              IF a.k = "mono" THEN R([t |-> "var", i |-> iv.m[8], v |-> Null], st)
                              ELSE LET r == Pull(a, d.m[dp].v, Default(a), st, o) IN R([t |-> "var", i |-> iv.m[8], v |-> r.v], r.st)
      [] ty.k = "rec" -> IF d.t # "obj" THEN R(cur, Mismatch(ty, d, st, o)) ELSE PullObj(ty, d.m, cur, st, o)

\* top-level functions: fromJson() returns a default object if the document has the wrong type
Exact(ty, d) == IF ty.k = "int" THEN d.t = "int" /\ Fits(d.n, d.m, ty.w, ty.s) ELSE TRUE
FromJson(ty, d, st, o) ==
    IF ty.k = "int" /\ ~Exact(ty, d) THEN R(Default(ty), Mismatch(ty, d, st, o))
    ELSE Pull(ty, d, Default(ty), st, o)
===============================================================================
