--------------------------------- MODULE Num ---------------------------------
(* Arithmetic on machine numbers. TLC's integers have 32 bits, so 64-bit      *)
(* numbers are sequences of 8 bytes (big endian); an integer is a sign plus a *)
(* magnitude, a floating point number the bit pattern of an IEEE 754 double.  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
IntV(n, m) == [t |-> "int", n |-> n, m |-> m]
Flt(x) == [t |-> "flt", x |-> x]
\* small non-negative number (< 2^24)
Small(k) == IntV(FALSE, <<0, 0, 0, 0, k \div 16777216, (k \div 65536) % 256, (k \div 256) % 256, k % 256>>)

Bit(m, p) == (m[8 - (p \div 8)] \div (2 ^ (p % 8))) % 2       \* bit with weight 2^p
FromBits(B(_)) == [k \in 1..8 |-> LET p == 8 * (8 - k) IN
    B(p) + 2 * B(p+1) + 4 * B(p+2) + 8 * B(p+3) + 16 * B(p+4) + 32 * B(p+5) + 64 * B(p+6) + 128 * B(p+7)]

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LeqFrom(a, b, k + 1)
Leq(a, b) == LeqFrom(a, b, 1)

Pow2m1(w) == [k \in 1..8 |-> LET lo == 8 * (8 - k) IN IF w >= lo + 8 THEN 255 ELSE IF w <= lo THEN 0 ELSE (2 ^ (w - lo)) - 1]
Pow2(w) == [k \in 1..8 |-> LET lo == 8 * (8 - k) IN IF w >= lo /\ w < lo + 8 THEN 2 ^ (w - lo) ELSE 0]

\* does the integer fit into w bits?
Fits(n, m, w, s) ==
    IF m = Zero8 THEN TRUE
    ELSE IF ~s THEN ~n /\ Leq(m, Pow2m1(w))
    ELSE IF n THEN Leq(m, Pow2(w - 1)) ELSE Leq(m, Pow2m1(w - 1))

\* m + 1 modulo 2^64
RECURSIVE IncAt(_, _)
IncAt(m, k) == IF k = 0 THEN m ELSE IF m[k] = 255 THEN IncAt([m EXCEPT ![k] = 0], k - 1) ELSE [m EXCEPT ![k] = @ + 1]
Inc(m) == IncAt(m, 8)
Neg(m) == Inc([k \in 1..8 |-> 255 - m[k]])

\* two's complement representation with 64 bits
TwoC(n, m) == IF n THEN Neg(m) ELSE m
\* integer with w bits given by the low bits of a two's complement representation
FromTwoC(c, w, s) ==
    LET mask == Pow2m1(w)
        low == [k \in 1..8 |-> IF mask[k] = 255 THEN c[k] ELSE IF mask[k] = 0 THEN 0 ELSE c[k] % (mask[k] + 1)]
        isNeg == s /\ Bit(c, w - 1) = 1
        ext == [k \in 1..8 |-> IF mask[k] = 255 THEN c[k] ELSE 255]
    IN IF isNeg THEN IntV(TRUE, Neg(ext)) ELSE IntV(FALSE, low)
\* static_cast to an integer with w bits
CastInt(n, m, w, s) == FromTwoC(TwoC(n, m), w, s)

\* ---- doubles -------------------------------------------------------------------
Exponent(x) == ((x[1] % 128) * 16) + (x[2] \div 16)          \* biased
Negative(x) == x[1] >= 128
IsNanOrInf(x) == Exponent(x) = 2047
IsZero(x) == x[1] % 128 = 0 /\ \A k \in 2..8 : x[k] = 0
PlusMinusZero(x) == IsZero(x)

\* truncation towards zero; "big" if the magnitude does not fit into 64 bits (or is not a number)
Trunc(x) ==
    LET e == Exponent(x) IN
    IF e < 1023 THEN [ok |-> TRUE, n |-> FALSE, m |-> Zero8]
    ELSE IF e - 1023 > 63 THEN [ok |-> FALSE, n |-> Negative(x), m |-> Zero8]
    ELSE LET q == e - 1023
             B(p) == IF p > q THEN 0 ELSE IF p = q THEN 1 ELSE IF q - p > 52 THEN 0 ELSE Bit(x, 52 - (q - p))
         IN [ok |-> TRUE, n |-> Negative(x), m |-> FromBits(B)]

\* number with implicit leading one: sign, unbiased exponent, mantissa given by bits B(1) (highest) .. B(52)
MakeDbl(neg, e, B(_)) ==
    LET be == e + 1023
        C(p) == IF p = 63 THEN (IF neg THEN 1 ELSE 0) ELSE IF p >= 52 THEN (be \div (2 ^ (p - 52))) % 2 ELSE B(52 - p)
    IN FromBits(C)

RECURSIVE HighBit(_, _)
HighBit(m, p) == IF p = 0 \/ Bit(m, p) = 1 THEN p ELSE HighBit(m, p - 1)

\* conversion of an integer to the nearest double (ties to even)
IntToDbl(n, m) ==
    IF m = Zero8 THEN Zero8
    ELSE LET h == HighBit(m, 63) IN
         IF h <= 52 THEN LET B(k) == IF h - k >= 0 THEN Bit(m, h - k) ELSE 0 IN MakeDbl(n, h, B)
         ELSE LET cut == h - 52                          \* number of bits to drop
                  half == Bit(m, cut - 1) = 1
                  sticky == \E p \in 0..63 : p < cut - 1 /\ Bit(m, p) = 1
                  odd == Bit(m, cut) = 1
                  up == half /\ (sticky \/ odd)
                  K(p) == IF p <= 63 - cut THEN Bit(m, p + cut) ELSE 0
                  kept == FromBits(K)                    \* 53 bits
                  r == IF up THEN Inc(kept) ELSE kept
                  over == Bit(r, 53) = 1
                  B(k) == IF over THEN (IF k = 52 THEN Bit(r, 1) ELSE Bit(r, 53 - k)) ELSE Bit(r, 52 - k)
              IN MakeDbl(n, IF over THEN h + 1 ELSE h, B)

\* nearest float of a double as bit pattern of a double; <<>> if not specified here (overflow, subnormal, NaN)
DblToF32(x) ==
    LET e == Exponent(x) - 1023 IN
    IF IsZero(x) THEN x
    ELSE IF e < -126 \/ e > 127 THEN <<>>
    ELSE LET half == Bit(x, 28) = 1
             sticky == \E p \in 0..27 : Bit(x, p) = 1
             odd == Bit(x, 29) = 1
             up == half /\ (sticky \/ odd)
             cutlow == [k \in 1..8 |-> IF k <= 4 THEN x[k] ELSE IF k = 5 THEN (x[5] \div 32) * 32 ELSE 0]
             \* adding one unit in the last place of the kept mantissa; a carry correctly increments the exponent
             RECURSIVE AddAt(_, _, _)
             AddAt(m, k, by) == IF m[k] + by > 255 THEN AddAt([m EXCEPT ![k] = (@ + by) - 256], k - 1, 1) ELSE [m EXCEPT ![k] = @ + by]
             r == IF up THEN AddAt(cutlow, 5, 32) ELSE cutlow
         IN IF Exponent(r) - 1023 > 127 THEN <<>> ELSE r
===============================================================================
