---------------------------------- MODULE ChronoMC ----------------------------------
(* A calendar advancing day by day (using only the rule how many days a month has) is  *)
(* compared with the calendar arithmetic; texts of the resulting points in time are     *)
(* unambiguous, in order and read back as the same point in time. The same for spans.   *)
EXTENDS Chrono, TLC, FiniteSets, Json
CONSTANTS Years,        \* years to start with
          Span          \* number of days to advance
VARIABLES n, y, m, d, left

Init == y \in Years /\ m = 1 /\ d = 1 /\ n = DayNumber(y, 1, 1) /\ left = Span
NextDay ==
    /\ left > 0 /\ left' = left - 1 /\ n' = n + 1
    /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
       ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
       ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Next == NextDay
Spec == Init /\ [][Next]_<<n, y, m, d, left>>

CalendarAgrees == DayNumber(y, m, d) = n /\ Civil(n) = [y |-> y, m |-> m, d |-> d]
Times == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 59, 10>>, <<0, 59, 0, 10000>>, <<12, 30, 30, 5000000>>, <<23, 59, 59, 9999999>>}
Edge == d = 1 \/ d = MonthDays(y, m)
At(t) == Join(24 * n + t[1], t[2], t[3], t[4])
SplitJoin == \A t \in Times : Split(At(t)) = [h |-> 24 * n + t[1], mi |-> t[2], s |-> t[3], f |-> t[4]]
RoundTrip == (Edge /\ y < 10000) => \A t \in Times : ParseIso(IsoText(At(t))) = Ok(FALSE, At(t))
\* texts are ordered like the points in time (as far as texts have no or the same number of digits after the dot)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Ordered == [][y' < 10000 => Less(IsoText(At(<<23, 59, 59, 9999999>>)), IsoText(Join(24 * n', 0, 0, 0)))]_<<n, y, m, d, left>>
\* offsets: the same point in time stated with another time zone
Zoned == (Edge /\ y < 10000 /\ n > 1) =>
    LET T(off) == DateText([y |-> y, m |-> m, d |-> d]) \o <<84>> \o ClockText(1, 15, 0, 0) \o off IN
    /\ ParseIso(T(<<90>>)) = ParseIso(T(<<>>))
    /\ ParseIso(T(<<43, 48, 50, 58, 51, 48>>)) = Ok(FALSE, Join(24 * n - 2, 45, 0, 0))      \* +02:30
    /\ ParseIso(T(<<45, 50, 51, 58, 52, 53>>)) = Ok(FALSE, Join(24 * n + 25, 0, 0, 0))      \* -23:45
\* what is not part of the calendar is rejected
Rejected == Edge /\ y < 10000 =>
    /\ ParseIso(DateText([y |-> y, m |-> m, d |-> MonthDays(y, m) + 1])) = Bad
    /\ ParseIso(DateText([y |-> y, m |-> m, d |-> 0])) = Bad
    /\ ParseIso(DateText([y |-> y, m |-> m + 12, d |-> 1])) = Bad
    /\ ParseIso(DateText([y |-> y, m |-> m, d |-> d]) \o <<84>> \o ClockText(24, 0, 0, 0)) = Bad
Spans == {<<h, mi, s, f>> : h \in {0, 1, 23, 24, 25, 99, 100, 4242, 999999}, mi \in {0, 1, 59}, s \in {0, 59}, f \in {0, 1, 10, 10000, 1234560, 5000000, 9999999}}
SpanRoundTrip == (left = Span /\ n = 0) => \A t \in Spans : LET x == Join(t[1], t[2], t[3], t[4]) IN
    /\ ParseSpan(SpanText(FALSE, x)) = Ok(FALSE, x)
    /\ ParseSpan(SpanText(TRUE, x)) = Ok(TRUE, x)
SpanDistinct == (left = Span /\ n = 0) => Cardinality({SpanText(b, Join(t[1], t[2], t[3], t[4])) : t \in Spans, b \in BOOLEAN}) = 2 * Cardinality(Spans)
\* exported for replay
Emit == Edge => PrintT("DT" \o ToJson([n |-> n, y |-> y, m |-> m, d |-> d, at |-> {At(t) : t \in Times}]))
===============================================================================
