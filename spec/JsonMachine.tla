-------------------------------- MODULE JsonMachine --------------------------------
(* Deserialization as a transition system: an explicit stack of frames, the error   *)
(* context (record, member, index) which is saved and restored by the frames, the   *)
(* list of errors and the pending exception. One transition is one step of the      *)
(* recursive descent. JsonMap!Pull is the meaning of a complete run; that both      *)
(* agree is one of the invariants checked by TLC (see JsonMachineMC).               *)
EXTENDS JsonMap, TLC

\* machine: stack (top is last), ret (value produced by last finished frame), ctx/errs/x/pr as in JsonMap, o (options), done
Machine(ty, d, cur, o) ==
    [stk |-> <<[f |-> "value", ty |-> ty, d |-> d, cur |-> cur]>>, ret |-> Null, st |-> InitState, o |-> o]
Done(s) == s.stk = <<>>

Top(s) == s.stk[Len(s.stk)]
Pop(s) == SubSeq(s.stk, 1, Len(s.stk) - 1)
Return(s, v) == [s EXCEPT !.stk = Pop(s), !.ret = v]
Replace(s, fr) == [s EXCEPT !.stk[Len(s.stk)] = fr]
Call(s, fr, callee) == [s EXCEPT !.stk = Append(Append(Pop(s), fr), callee)]
Value(ty, d, cur) == [f |-> "value", ty |-> ty, d |-> d, cur |-> cur]
ReportM(s, k, e, a) == [s EXCEPT !.st = Report(s.st, s.o, k, e, a)]
MismatchM(s, ty, d) == ReportM(s, "TypeMismatch", ExpType(ty), JType(d))
SetIndex(s, i) == IF s.o.we THEN [s EXCEPT !.st.i = i] ELSE s

\* ---- starting with a value -----------------------------------------------------------
Scalars == {"bool", "int", "flt", "enum", "probe", "str", "view", "dt", "ts"}
Enter(s) ==
    LET fr == Top(s)
        ty == fr.ty
        d == fr.d
        Keep(t) == Return(t, fr.cur)
    IN CASE ty.k \in Scalars -> LET r == Pull(ty, d, fr.cur, s.st, s.o) IN [Return(s, r.v) EXCEPT !.st = r.st]
         [] ty.k \in {"seq", "set"} ->
                IF d.t # "arr" THEN Keep(MismatchM(s, ty, d))
                ELSE Replace(s, [f |-> ty.k, ty |-> ty, es |-> d.e, k |-> 0, acc |-> <<>>, saved |-> s.st.i])
         [] ty.k = "map" ->
                IF d.t # "obj" THEN Keep(MismatchM(s, ty, d))
                ELSE Replace(s, [f |-> IF ty.multi THEN "mmap" ELSE "map", ty |-> ty, m |-> d.m, k |-> 0, j |-> 0, acc |-> <<>>])
         [] ty.k = "tup" ->
                IF d.t # "arr" THEN Keep(MismatchM(s, ty, d))
                ELSE IF Len(d.e) # Len(ty.of) THEN Keep(ReportM(s, "ArraySizeMismatch", "Array", "Array"))
                ELSE Replace(s, [f |-> "tup", ty |-> ty, es |-> d.e, k |-> 0, acc |-> fr.cur.e])
         [] ty.k = "opt" ->
                IF d.t = "null" THEN Return(s, Null)
                ELSE Call(s, [f |-> "wrap", as |-> [t |-> "some"]], Value(ty.of, d, Default(ty.of)))
         [] ty.k = "var" ->
                IF d.t # "obj" THEN Keep(MismatchM(s, ty, d))
                ELSE LET ip == Find(d.m, IndexKey)
                         dp == Find(d.m, DataKey)
                     IN IF ip = 0 \/ dp = 0 THEN Keep(ReportM(s, "InvalidVariantObject", "Object", "Object"))
                        ELSE LET iv == d.m[ip].v IN
                             IF iv.t # "int" \/ (iv.t = "int" /\ iv.n) THEN Keep(ReportM(s, "InvalidVariantIndex", "Number", JType(iv)))
                             ELSE IF ~Leq(iv.m, Small(Len(ty.of) - 1).m) THEN Keep(ReportM(s, "InvalidVariantIndex", "Number", "Number"))
                             ELSE LET a == ty.of[iv.m[8] + 1] IN
                                  IF a.k = "mono" THEN Return(s, [t |-> "var", i |-> iv.m[8], v |-> Null])
                                  ELSE Call(s, [f |-> "wrap", as |-> [t |-> "var", i |-> iv.m[8]]], Value(a, d.m[dp].v, Default(a)))
         [] ty.k = "rec" ->
                IF d.t # "obj" THEN Keep(MismatchM(s, ty, d))
                ELSE Replace(s, [f |-> "rec", ty |-> ty, m |-> d.m, k |-> 1, acc |-> fr.cur.f])

\* ---- continuing a frame; the result of the callee (if there was one) is in ret ---------
StepSeq(s) ==
    LET fr == Top(s)
        acc == IF fr.k = 0 THEN fr.acc ELSE Append(fr.acc, s.ret)
    IN IF fr.k = Len(fr.es) THEN Return(SetIndex(s, fr.saved), [t |-> "seq", e |-> acc])
       ELSE Call(SetIndex(s, fr.k), [fr EXCEPT !.k = @ + 1, !.acc = acc], Value(fr.ty.of, fr.es[fr.k + 1], Default(fr.ty.of)))
StepSet(s) ==
    LET fr == Top(s)
        dup == fr.k > 0 /\ ~fr.ty.multi /\ \E j \in 1..Len(fr.acc) : Same(fr.ty.of, fr.acc[j], s.ret)
        acc == IF fr.k = 0 \/ dup THEN fr.acc ELSE Append(fr.acc, s.ret)
        s1 == IF dup THEN ReportM(s, "UnexpectedDuplicate", "Array", "Array") ELSE s
    IN IF s1.st.x # "none" THEN s1
       ELSE IF fr.k = Len(fr.es) THEN Return(SetIndex(s1, fr.saved), [t |-> "set", e |-> acc])
       ELSE Call(SetIndex(s1, fr.k), [fr EXCEPT !.k = @ + 1, !.acc = acc], Value(fr.ty.of, fr.es[fr.k + 1], Default(fr.ty.of)))
StepMap(s) ==
    LET fr == Top(s)
        Put(acc, key, v) == LET f == Find(acc, key) IN IF f = 0 THEN Append(acc, [k |-> key, v |-> v]) ELSE [acc EXCEPT ![f].v = v]
        acc == IF fr.k = 0 THEN fr.acc ELSE Put(fr.acc, fr.m[fr.k].k, s.ret)
    IN IF fr.k = Len(fr.m) THEN Return(s, [t |-> "map", e |-> acc])
       ELSE LET f == Find(acc, fr.m[fr.k + 1].k) IN
            Call(s, [fr EXCEPT !.k = @ + 1, !.acc = acc], Value(fr.ty.of, fr.m[fr.k + 1].v, IF f = 0 THEN Default(fr.ty.of) ELSE acc[f].v))
\* k: current member, j: position within its array of values (0: not started), ret is pending if j > 0
StepMulti(s) ==
    LET fr == Top(s)
        acc == IF fr.k = 0 \/ fr.j = 0 THEN fr.acc ELSE Append(fr.acc, [k |-> fr.m[fr.k].k, v |-> s.ret])
        \* values of the current member
        vals == IF fr.k = 0 THEN <<>> ELSE IF fr.m[fr.k].v.t = "arr" THEN fr.m[fr.k].v.e ELSE <<fr.m[fr.k].v>>
    IN IF fr.k > 0 /\ fr.j < Len(vals) THEN Call(s, [fr EXCEPT !.j = @ + 1, !.acc = acc], Value(fr.ty.of, vals[fr.j + 1], Default(fr.ty.of)))
       ELSE IF fr.k = Len(fr.m) THEN Return(s, [t |-> "map", e |-> acc])
       ELSE Replace(s, [fr EXCEPT !.k = @ + 1, !.j = 0, !.acc = acc])
StepTup(s) ==
    LET fr == Top(s)
        acc == IF fr.k = 0 THEN fr.acc ELSE [fr.acc EXCEPT ![fr.k] = s.ret]
    IN IF fr.k = Len(fr.es) THEN Return(s, [t |-> "tup", e |-> acc])
       ELSE Call(s, [fr EXCEPT !.k = @ + 1, !.acc = acc], Value(fr.ty.of[fr.k + 1], fr.es[fr.k + 1], acc[fr.k + 1]))
StepWrap(s) ==
    LET fr == Top(s) IN Return(s, [k \in DOMAIN fr.as \cup {"v"} |-> IF k = "v" THEN s.ret ELSE fr.as[k]])
StepRec(s) ==
    LET fr == Top(s)
        fl == Flat[fr.ty.n]
    IN IF fr.k > Len(fl) THEN Return(s, [t |-> "rec", f |-> fr.acc])
       ELSE LET pos == IF fl[fr.k].f.pull THEN Find(fr.m, fl[fr.k].f.nb) ELSE 0
                next == [fr EXCEPT !.k = @ + 1]
            IN IF pos = 0 THEN Replace(s, next)
               ELSE LET enter == [f |-> "member", pos |-> fr.k, r |-> s.st.r, m |-> s.st.m]
                        s1 == IF s.o.we THEN [s EXCEPT !.st.r = fl[fr.k].own, !.st.m = fl[fr.k].f.n] ELSE s
                    IN [s1 EXCEPT !.stk = Append(Append(Append(Pop(s), next), enter), Value(fl[fr.k].f.t, fr.m[pos].v, fr.acc[fr.k].v))]
\* a member is done: restore the context and store the value
StepMember(s) ==
    LET fr == Top(s)
        below == Pop(s)
        p == Len(below)
    IN [s EXCEPT !.stk = [below EXCEPT ![p].acc[fr.pos].v = s.ret], !.st.r = fr.r, !.st.m = fr.m]

\* an exception is pending: leave the frame; the context is restored nevertheless
Unwind(s) ==
    LET fr == Top(s)
        s1 == [s EXCEPT !.stk = Pop(s)]
    IN CASE fr.f \in {"seq", "set"} -> SetIndex(s1, fr.saved)
         [] fr.f = "member" -> [s1 EXCEPT !.st.r = fr.r, !.st.m = fr.m]
         [] OTHER -> s1

Step(s) ==
    CASE s.st.x # "none" -> Unwind(s)
      [] Top(s).f = "value" -> Enter(s)
      [] Top(s).f = "seq" -> StepSeq(s)
      [] Top(s).f = "set" -> StepSet(s)
      [] Top(s).f = "map" -> StepMap(s)
      [] Top(s).f = "mmap" -> StepMulti(s)
      [] Top(s).f = "tup" -> StepTup(s)
      [] Top(s).f = "wrap" -> StepWrap(s)
      [] Top(s).f = "rec" -> StepRec(s)
      [] Top(s).f = "member" -> StepMember(s)
===============================================================================
