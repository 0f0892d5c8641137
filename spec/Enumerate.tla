-------------------------------- MODULE Enumerate --------------------------------
(* Sets of values of a type for exhaustive checking.                               *)
EXTENDS Integers, Sequences, FiniteSets, Values
LOCAL INSTANCE Chrono

N(k) == Small(k)
Dt2024 == IntV(FALSE, Join(24 * DayNumber(2024, 2, 29) + 13, 14, 15, 1230000))
Dt9999 == IntV(FALSE, Join(24 * DayNumber(9999, 12, 31) + 23, 59, 59, 9999999))
Ts1 == IntV(FALSE, Join(49, 2, 3, 1234560))
\* ---- values of a type ------------------------------------------------------------------------
IntVals(w, s) ==
    {N(0), N(1), IntV(FALSE, Pow2m1(IF s THEN w - 1 ELSE w))} \cup (IF s THEN {IntV(TRUE, Pow2(w - 1)), IntV(TRUE, N(1).m)} ELSE {})
FltVals(w) == {Flt(Zero8), Flt(<<191, 192, 0, 0, 0, 0, 0, 0>>)}            \* 0, -0.125
              \cup (IF w = 64 THEN {Flt(<<63, 185, 153, 153, 153, 153, 153, 154>>)} ELSE {Flt(<<71, 239, 255, 255, 224, 0, 0, 0>>)})    \* 0.1 / FLT_MAX
StrVals == {Str(<<>>), Str(<<97>>), Str(<<0, 34, 92>>)}
Keys == {<<97>>, <<98, 0>>}
\* one of the "other" values for filling members while another one is varied
RECURSIVE Vals(_, _), Filled(_, _)
\* two keys of a map (strings unless the type says otherwise)
K1(ty) == IF "key" \in DOMAIN ty THEN Default(ty.key) ELSE <<97>>
K2(ty) == IF "key" \in DOMAIN ty THEN Filled(ty.key, 1) ELSE <<98, 0>>
Few(S, n) == IF n > 0 THEN S ELSE {CHOOSE x \in S : TRUE}
Vals(ty, n) ==
    CASE ty.k = "bool" -> {BoolV(TRUE), BoolV(FALSE)}
      [] ty.k = "int" -> IntVals(ty.w, ty.s)
      [] ty.k = "enum" -> IF ty.x = "EnPlain" THEN {N(0), N(1)} ELSE IntVals(ty.w, ty.s)
      [] ty.k = "probe" -> {N(1)}
      [] ty.k = "flt" -> FltVals(ty.w)
      [] ty.k = "str" -> StrVals
      [] ty.k = "dt" -> {N(0), N(1), Dt2024, Dt9999}
      [] ty.k = "ts" -> {N(0), N(1), Ts1, IntV(FALSE, Join(999999, 59, 59, 9999990))}
      [] ty.k = "view" -> {Null, Str(<<97>>)}
      [] ty.k = "mono" -> {Null}
      [] ty.k = "seq" -> {[t |-> "seq", e |-> <<>>]} \cup
            (IF n <= 0 THEN {} ELSE LET el == Vals(ty.of, n - 1) IN {[t |-> "seq", e |-> <<a>>] : a \in el} \cup (IF n > 1 THEN {[t |-> "seq", e |-> <<a, b>>] : a \in el, b \in el} ELSE {}))
      [] ty.k = "set" -> {[t |-> "set", e |-> <<>>]} \cup
            (IF n <= 0 THEN {} ELSE LET el == Vals(ty.of, n - 1) IN {[t |-> "set", e |-> <<a>>] : a \in el}
                \cup {[t |-> "set", e |-> <<p[1], p[2]>>] : p \in {q \in el \X el : ty.multi \/ q[1] # q[2]}})
      [] ty.k = "map" -> {[t |-> "map", e |-> <<>>]} \cup
            (IF n <= 0 THEN {} ELSE LET el == Vals(ty.of, n - 1)
                                       E(k, v) == [k |-> k, v |-> v]
                                   IN {[t |-> "map", e |-> <<E(K1(ty), a)>>] : a \in el} \cup {[t |-> "map", e |-> <<E(K1(ty), a), E(K2(ty), b)>>] : a \in el, b \in el}
                                      \cup (IF ty.multi THEN {[t |-> "map", e |-> <<E(K1(ty), a), E(K1(ty), b), E(K2(ty), a)>>] : a \in el, b \in el} ELSE {}))
      [] ty.k = "tup" -> {[t |-> "tup", e |-> [j \in 1..Len(ty.of) |-> IF j = k THEN x ELSE Filled(ty.of[j], n - 1)]] : <<k, x>> \in UNION {{k} \X Vals(ty.of[k], n - 1) : k \in 1..Len(ty.of)}}
      [] ty.k = "opt" -> {Null} \cup (IF n < 0 THEN {} ELSE {Some(v) : v \in Vals(ty.of, n - 1)})
      [] ty.k = "var" -> UNION {{[t |-> "var", i |-> k - 1, v |-> x] : x \in Vals(ty.of[k], n - 1)} : k \in 1..Len(ty.of)}
      [] ty.k = "rec" -> LET fl == Flat[ty.n] IN
            {[t |-> "rec", f |-> [j \in 1..Len(fl) |-> [n |-> fl[j].f.n, v |-> IF j = k THEN x ELSE Filled(fl[j].f.t, n - 1)]]]
                : <<k, x>> \in UNION {{k} \X Vals(fl[k].f.t, n - 1) : k \in 1..Len(fl)}} \cup {Filled(ty, n)}
\* a value which differs from the default where that is possible
Filled(ty, n) ==
    CASE ty.k = "bool" -> BoolV(TRUE)
      [] ty.k \in {"int", "probe"} -> N(7)
      [] ty.k = "enum" -> N(1)
      [] ty.k = "flt" -> Flt(<<63, 248, 0, 0, 0, 0, 0, 0>>)
      [] ty.k = "str" -> Str(<<102>>)
      [] ty.k = "dt" -> Dt2024
      [] ty.k = "ts" -> Ts1
      [] ty.k = "view" -> Str(<<118>>)
      [] ty.k = "mono" -> Null
      [] ty.k = "seq" -> [t |-> "seq", e |-> IF n <= 0 THEN <<>> ELSE <<Filled(ty.of, n - 1)>>]
      [] ty.k = "set" -> [t |-> "set", e |-> IF n <= 0 THEN <<>> ELSE <<Filled(ty.of, n - 1)>>]
      [] ty.k = "map" -> [t |-> "map", e |-> IF n <= 0 THEN <<>> ELSE <<[k |-> K1(ty), v |-> Filled(ty.of, n - 1)]>>]
      [] ty.k = "tup" -> [t |-> "tup", e |-> [j \in 1..Len(ty.of) |-> Filled(ty.of[j], n - 1)]]
      [] ty.k = "opt" -> IF n <= 0 THEN Null ELSE Some(Filled(ty.of, n - 1))
      [] ty.k = "var" -> [t |-> "var", i |-> Len(ty.of) - 1, v |-> Filled(ty.of[Len(ty.of)], n - 1)]
      [] ty.k = "rec" -> LET fl == Flat[ty.n] IN [t |-> "rec", f |-> [j \in 1..Len(fl) |-> [n |-> fl[j].f.n, v |-> Filled(fl[j].f.t, n - 1)]]]

===============================================================================
