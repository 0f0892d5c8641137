-------------------------------- MODULE Values --------------------------------
(* Abstract values of C++ objects, types (schema) and their equality.         *)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC

CONSTANTS Structs,      \* name -> [q, bases, fields]   (declared in C++)
          Defaults      \* name -> value of a default-constructed object

Null == [t |-> "null"]
AnyV == [t |-> "any"]
BoolV(b) == [t |-> "bool", b |-> b]
Str(s) == [t |-> "str", s |-> s]
Some(v) == [t |-> "some", v |-> v]

\* flattened members of a record: those of the base classes first, every base class once
RECURSIVE FlatOf(_, _), FlatBases(_, _, _)
FlatBases(S, bs, k) == IF k > Len(bs) THEN <<>> ELSE FlatOf(S, bs[k]) \o FlatBases(S, bs, k + 1)
FlatOf(S, s) == FlatBases(S, S[s].bases, 1) \o [k \in 1..Len(S[s].fields) |-> [f |-> S[s].fields[k], own |-> S[s].q, ownS |-> s]]
Flat == LET S == Structs IN TLCEval([s \in DOMAIN S |-> FlatOf(S, s)])

RECURSIVE Default(_)
Default(ty) ==
    CASE ty.k = "bool" -> BoolV(FALSE)
      [] ty.k \in {"int", "enum", "probe", "dt", "ts"} -> IntV(FALSE, Zero8)
      [] ty.k = "flt" -> Flt(Zero8)
      [] ty.k = "str" -> Str(<<>>)
      [] ty.k \in {"view", "opt", "mono"} -> Null
      [] ty.k = "seq" -> [t |-> "seq", e |-> <<>>]
      [] ty.k = "set" -> [t |-> "set", e |-> <<>>]
      [] ty.k = "map" -> [t |-> "map", e |-> <<>>]
      [] ty.k = "tup" -> [t |-> "tup", e |-> [k \in 1..Len(ty.of) |-> Default(ty.of[k])]]
      [] ty.k = "var" -> [t |-> "var", i |-> 0, v |-> Default(ty.of[1])]
      [] ty.k = "rec" -> Defaults[ty.n]

\* ---- equality of values (expected value may contain "any") ------------------------
Count(P(_), s) == Cardinality({k \in 1..Len(s) : P(s[k])})
SubSeqWith(s, P(_)) == SelectSeq(s, P)

\* date/time values which have been converted from text are exact up to one tick
NearBy(a, b) == IF a.n = b.n THEN a.m = b.m \/ Inc(a.m) = b.m \/ Inc(b.m) = a.m
                ELSE Inc(Zero8) \in {a.m, b.m} /\ Zero8 \in {a.m, b.m}

RECURSIVE Same(_, _, _)
Bag(eq(_, _), a, b) ==
    /\ Len(a) = Len(b)
    /\ \A k \in 1..Len(a) : Cardinality({j \in 1..Len(a) : eq(a[k], a[j])}) = Cardinality({j \in 1..Len(b) : eq(a[k], b[j])})
SeqSame(ty, a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(ty, a[k], b[k])
Same(ty, a, b) ==
    IF a.t = "any" THEN TRUE
    ELSE IF a.t = "near" THEN b.t \in {"int", "near"} /\ NearBy(a, b)
    ELSE IF a.t # b.t THEN FALSE
    ELSE CASE a.t = "null" -> TRUE
           [] a.t = "bool" -> a.b = b.b
           [] a.t = "int" -> a.n = b.n /\ a.m = b.m
           [] a.t = "flt" -> a.x = b.x
           [] a.t = "str" -> a.s = b.s
           [] a.t = "seq" -> SeqSame(ty.of, a.e, b.e)
           [] a.t = "set" -> LET eq(x, y) == Same(ty.of, x, y) IN Bag(eq, a.e, b.e)
           [] a.t = "tup" -> Len(a.e) = Len(b.e) /\ \A k \in 1..Len(a.e) : Same(ty.of[k], a.e[k], b.e[k])
           [] a.t = "map" ->
                /\ Len(a.e) = Len(b.e)
                /\ LET keys == {a.e[k].k : k \in 1..Len(a.e)} IN
                   \A key \in keys :
                      LET P(x) == x.k = key
                          va == SelectSeq(a.e, P)
                          vb == SelectSeq(b.e, P)
                          eq(x, y) == Same(ty.of, x.v, y.v)
                      IN IF ty.ord THEN Len(va) = Len(vb) /\ \A k \in 1..Len(va) : Same(ty.of, va[k].v, vb[k].v)
                         ELSE Bag(eq, va, vb)
           [] a.t = "some" -> Same(ty.of, a.v, b.v)
           [] a.t = "var" -> a.i = b.i /\ Same(ty.of[a.i + 1], a.v, b.v)
           [] a.t = "rec" -> LET fl == Flat[ty.n] IN
                /\ Len(a.f) = Len(b.f)
                /\ \A k \in 1..Len(a.f) : a.f[k].n = b.f[k].n /\ Same(fl[k].f.t, a.f[k].v, b.f[k].v)
           \* object referred to by shared pointers; the content is stated where it occurs first
           [] a.t = "ref" -> a.id = b.id /\ ("v" \in DOMAIN a) = ("v" \in DOMAIN b) /\ ("v" \in DOMAIN a => Same(ty.of, a.v, b.v))
           [] OTHER -> FALSE
===============================================================================
