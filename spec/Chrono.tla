---------------------------------- MODULE Chrono ----------------------------------
(* Points in time and time spans: the number of 100-nanosecond ticks (64 bits, as    *)
(* sequence of bytes since TLC's integers have 32 bits), the Gregorian calendar and    *)
(* the texts used within JSON documents.                                            *)
EXTENDS Integers, Sequences, Num

\* ---- arithmetic: bytes / small number, bytes * small number + small number (small: < 2^22) -----------
RECURSIVE DivAt(_, _, _, _, _), MulAt(_, _, _, _)
DivAt(m, d, k, q, r) == IF k > 8 THEN [q |-> q, r |-> r] ELSE LET x == r * 256 + m[k] IN DivAt(m, d, k + 1, Append(q, x \div d), x % d)
DivBy(m, d) == DivAt(m, d, 1, <<>>, 0)
MulAt(m, f, k, carry) == IF k = 0 THEN m ELSE LET x == m[k] * f + carry IN MulAt([m EXCEPT ![k] = x % 256], f, k - 1, x \div 256)
MulAdd(m, f, a) == MulAt(m, f, 8, a)
ToInt(m) == m[5] * 16777216 + m[6] * 65536 + m[7] * 256 + m[8]
OfInt(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* ticks <-> hours, minutes, seconds, ticks within the second
Split(m) ==
    LET a == DivBy(m, 10000)
        b == DivBy(a.q, 1000)
        c == DivBy(b.q, 60)
        e == DivBy(c.q, 60)
    IN [h |-> ToInt(e.q), mi |-> e.r, s |-> c.r, f |-> b.r * 10000 + a.r]
Join(h, mi, s, f) == MulAdd(MulAdd(MulAdd(MulAdd(OfInt(h), 60, mi), 60, s), 1000, f \div 10000), 10000, f % 10000)

\* ---- calendar: day 0 is 0001-01-01 -----------------------------------------------------------------------
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBeforeMonth(_, _), MonthOf(_, _, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthDays(y, m - 1)
DayNumber(y, m, d) == LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400 + DaysBeforeMonth(y, m) + d - 1
MonthOf(y, m, rem) == IF rem < MonthDays(y, m) THEN [y |-> y, m |-> m, d |-> rem + 1] ELSE MonthOf(y, m + 1, rem - MonthDays(y, m))
Civil(n) ==
    LET c400 == n \div 146097
        r400 == n % 146097
        c100 == IF r400 \div 36524 = 4 THEN 3 ELSE r400 \div 36524
        r100 == r400 - c100 * 36524
        c4 == r100 \div 1461
        r4 == r100 % 1461
        c1 == IF r4 \div 365 = 4 THEN 3 ELSE r4 \div 365
    IN MonthOf(400 * c400 + 100 * c100 + 4 * c4 + c1 + 1, 1, r4 - c1 * 365)

\* ---- texts (sequences of bytes) ----------------------------------------------------------------------------
RECURSIVE Pad(_, _)
Pad(n, w) == IF n < 10 /\ w <= 1 THEN <<48 + n>> ELSE Append(Pad(n \div 10, w - 1), 48 + (n % 10))
Dot == 46
Colon == 58
Minus == 45
Fraction(f) == IF f = 0 THEN <<>> ELSE IF f % 10000 = 0 THEN <<Dot>> \o Pad(f \div 10000, 3) ELSE IF f % 10 = 0 THEN <<Dot>> \o Pad(f \div 10, 6) ELSE <<Dot>> \o Pad(f, 7)
ClockText(h, mi, s, f) == Pad(h, 2) \o <<Colon>> \o Pad(mi, 2) \o <<Colon>> \o Pad(s, 2) \o Fraction(f)
DateText(c) == Pad(c.y, 4) \o <<Minus>> \o Pad(c.m, 2) \o <<Minus>> \o Pad(c.d, 2)
IsoText(m) == LET p == Split(m) IN DateText(Civil(p.h \div 24)) \o <<84>> \o ClockText(p.h % 24, p.mi, p.s, p.f)
\* not specified for time spans of a million hours or more
SpanKnown(m) == Split(m).h < 1000000
SpanText(n, m) == LET p == Split(m) IN (IF n THEN <<Minus>> ELSE <<>>) \o ClockText(p.h, p.mi, p.s, p.f)

\* ---- reading texts: [k |-> "ok", n, m], [k |-> "bad"] (has to be rejected) or [k |-> "open"] (not specified) ---
Ok(n, m) == [k |-> "ok", n |-> n /\ m # Zero8, m |-> m]
Bad == [k |-> "bad"]
Open == [k |-> "open"]
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A k \in 1..Len(s) : IsDigit(s[k])
RECURSIVE Val(_), Cut(_, _, _)
Val(s) == IF s = <<>> THEN 0 ELSE Val(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
\* parts separated by c
Cut(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF s[1] = c THEN <<acc>> \o Cut(Tail(s), c, <<>>) ELSE Cut(Tail(s), c, Append(acc, s[1]))
Parts(s, c) == Cut(s, c, <<>>)
Is2(s) == Len(s) = 2 /\ AllDigits(s)
\* seconds with an optional fraction of up to 7 digits
Zeros(k) == [j \in 1..k |-> 48]
FracVal(s) == Val(s \o Zeros(7 - Len(s)))
Sec(s, IsInt(_)) ==
    LET p == Parts(s, Dot) IN
    IF Len(p) > 2 \/ ~IsInt(p[1]) THEN [ok |-> FALSE]
    ELSE IF Len(p) = 1 THEN [ok |-> TRUE, s |-> Val(p[1]), f |-> 0]
    ELSE IF p[2] = <<>> \/ Len(p[2]) > 7 \/ ~AllDigits(p[2]) THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, s |-> Val(p[1]), f |-> FracVal(p[2])]

IsoChar(c) == IsDigit(c) \/ c \in {Minus, 43, Colon, Dot, 84, 90}
\* [hours, minutes] to be subtracted given by the text after the time
Offset(s) ==
    IF s = <<>> \/ s = <<90>> THEN [ok |-> TRUE, h |-> 0, mi |-> 0]
    ELSE IF Len(s) # 6 \/ s[1] \notin {43, Minus} \/ s[4] # Colon \/ ~Is2(SubSeq(s, 2, 3)) \/ ~Is2(SubSeq(s, 5, 6)) THEN [ok |-> FALSE]
    ELSE LET g == IF s[1] = 43 THEN 1 ELSE -1
             h == Val(SubSeq(s, 2, 3))
             mi == Val(SubSeq(s, 5, 6))
         IN [ok |-> h < 24 /\ mi < 60, h |-> g * h, mi |-> g * mi]
ParseIso(s) ==
    IF \E k \in 1..Len(s) : ~IsoChar(s[k]) THEN Bad
    ELSE IF Len(s) < 10 \/ ~AllDigits(SubSeq(s, 1, 4)) \/ s[5] # Minus \/ ~Is2(SubSeq(s, 6, 7)) \/ s[8] # Minus \/ ~Is2(SubSeq(s, 9, 10)) THEN Open
    ELSE LET y == Val(SubSeq(s, 1, 4))
             mo == Val(SubSeq(s, 6, 7))
             d == Val(SubSeq(s, 9, 10))
             rest == SubSeq(s, 11, Len(s))
             zone == {k \in 2..Len(rest) : rest[k] \in {43, Minus, 90}}
             cut == IF zone = {} THEN Len(rest) + 1 ELSE CHOOSE k \in zone : \A j \in zone : k <= j
             p == Parts(SubSeq(rest, 2, cut - 1), Colon)
             off == Offset(SubSeq(rest, cut, Len(rest)))
             sec == IF Len(p) = 3 THEN Sec(p[3], Is2) ELSE [ok |-> TRUE, s |-> 0, f |-> 0]
             DateOk == y > 0 /\ mo \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, mo)
         IN IF rest = <<>> THEN (IF DateOk THEN Ok(FALSE, Join(DayNumber(y, mo, d) * 24, 0, 0, 0)) ELSE Bad)
            ELSE IF rest[1] # 84 \/ Len(p) \notin {2, 3} \/ ~Is2(p[1]) \/ ~Is2(p[2]) \/ ~sec.ok \/ ~off.ok THEN Open
            ELSE IF ~DateOk \/ Val(p[1]) > 23 \/ Val(p[2]) > 59 \/ sec.s > 59 THEN Bad
            ELSE LET mi == Val(p[2]) - off.mi
                     h == DayNumber(y, mo, d) * 24 + Val(p[1]) - off.h + (IF mi < 0 THEN -1 ELSE IF mi > 59 THEN 1 ELSE 0)
                 IN IF h < 0 THEN Open ELSE Ok(FALSE, Join(h, mi % 60, sec.s, sec.f))

\* letters which might be part of a number ("1e3", "inf", "nan(...)", "0x1p2") and white space are not decided
SpanChar(c) == IsDigit(c) \/ c \in {Colon, Dot, Minus, 43, 32, 40, 41, 95} \cup (9..13) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Int7(s) == s # <<>> /\ Len(s) <= 7 /\ AllDigits(s)
ParseSpan(s) ==
    LET neg == s # <<>> /\ s[1] = Minus
        p == Parts(IF neg THEN Tail(s) ELSE s, Colon)
        c == Len(p)
        sec == Sec(p[c], Int7)
    IN IF \E k \in 1..Len(s) : ~SpanChar(s[k]) THEN Bad
       ELSE IF ~sec.ok \/ \E k \in 1..(c - 1) : ~Int7(p[k]) THEN Open
       ELSE IF c > 4 THEN Bad
       ELSE LET V(k) == IF k < 1 THEN 0 ELSE Val(p[k])
                mi == V(c - 1) + sec.s \div 60
                h == V(c - 2) + V(c - 3) * 24 + mi \div 60
            IN IF h >= 1000000 THEN Open ELSE Ok(neg, Join(h, mi % 60, sec.s % 60, sec.f))
===============================================================================
