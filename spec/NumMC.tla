---------------------------------- MODULE NumMC ----------------------------------
(* Lemmas about the arithmetic of Num.tla, checked at the boundaries of all types.  *)
EXTENDS Integers, Sequences, Num, Json, TLC, SequencesExt
VARIABLES a, phase
Nums == JsonDeserialize("nums.json")
Widths == {8, 16, 32, 64}
Init == a \in ToSet(Nums.ints) \cup ToSet(Nums.flts) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED a
IsInt == phase = 1 /\ a.t = "int"
IsFlt == phase = 1 /\ a.t = "flt"
Norm(v) == IF v.m = Zero8 THEN IntV(FALSE, Zero8) ELSE IntV(v.n, v.m)
\* a number can be represented iff converting it does not change it
FitsIffCastIsIdentity == IsInt => \A w \in Widths : \A s \in {TRUE, FALSE} : Fits(a.n, a.m, w, s) <=> (CastInt(a.n, a.m, w, s) = Norm(a) /\ (~s => ~a.n \/ a.m = Zero8) /\ (s /\ w = 64 => Fits(a.n, a.m, 64, TRUE)))
TwoCInjective == IsInt => (a.n /\ Fits(a.n, a.m, 64, TRUE) => FromTwoC(TwoC(a.n, a.m), 64, TRUE) = Norm(a)) /\ (~a.n => FromTwoC(TwoC(a.n, a.m), 64, FALSE) = Norm(a))
\* integers of at most 53 bits survive the conversion to a floating point number
IntDblInt == IsInt => LET t == Trunc(IntToDbl(a.n, a.m)) IN (Leq(a.m, Pow2(53)) => t.ok /\ t.m = a.m /\ (a.m # Zero8 => t.n = a.n))
\* truncation does not increase the magnitude and loses less than one
TruncWithin == IsFlt => LET t == Trunc(a.x) IN (~IsNanOrInf(a.x) /\ t.ok) =>
    /\ Exponent(IntToDbl(t.n, t.m)) <= Exponent(a.x)
    /\ (Exponent(a.x) >= 1075 => IntToDbl(t.n, t.m) = a.x)
F32Idempotent == IsFlt => LET f == DblToF32(a.x) IN f # <<>> => DblToF32(f) = f
\* what fits into a narrow type fits into a wider one
Monotone == IsInt => \A w1, w2 \in Widths : \A s \in {TRUE, FALSE} : (w1 < w2 /\ Fits(a.n, a.m, w1, s)) => Fits(a.n, a.m, w2, s)
===============================================================================
