--------------------------------- MODULE BinMap ---------------------------------
(* The binary format: what is written for an object and what is read from a      *)
(* sequence of bytes (including every malformed one). Versions are natural        *)
(* numbers, 0 means "none". Objects referred to by shared pointers are numbered:  *)
(* the value [t |-> "ref", id |-> k, v |-> content] is the first occurrence of      *)
(* object k within a value (or history), [t |-> "ref", id |-> k] any further one.  *)
EXTENDS Integers, Sequences, FiniteSets, Values, TLC

\* Structs[s]: q (qualified name), ver (highest supported version or 0), bases, fields (n, t, w, r, mark)
\* mark: markers declared before the field since the previous field, e.g. <<[a |-> TRUE, n |-> 3]>> for as_of_version(3)

BigVer == 1073741824
BigVerM == IntV(FALSE, <<0, 0, 0, 0, 64, 0, 0, 0>>)

\* ---- version markers -----------------------------------------------------------
Mark(c, m) == IF m.a THEN [a |-> m.n, u |-> IF m.n > c.u THEN 0 ELSE c.u] ELSE [u |-> m.n, a |-> IF m.n < c.a THEN 0 ELSE c.a]
RECURSIVE MarkAll(_, _, _)
MarkAll(c, ms, k) == IF k > Len(ms) THEN c ELSE MarkAll(Mark(c, ms[k]), ms, k + 1)
RECURSIVE CondsFrom(_, _, _)
CondsFrom(fs, k, c) == IF k > Len(fs) THEN <<>> ELSE LET d == MarkAll(c, fs[k].mark, 1) IN <<d>> \o CondsFrom(fs, k + 1, d)
Conds == LET S == Structs IN TLCEval([s \in DOMAIN S |-> CondsFrom(S[s].fields, 1, [a |-> 0, u |-> 0])])
\* is member k of record s part of version ver?
InVersion(s, k, ver) == LET c == Conds[s][k] IN (c.a = 0 \/ ver >= c.a) /\ (c.u = 0 \/ ver <= c.u)
\* version of a versioned record which is written
ApplyDefault(max, ver) == IF ver = 0 \/ ver > max THEN max ELSE ver

\* number of members of a record including those of its bases
RECURSIVE Count0(_), CountBases(_, _)
CountBases(bs, k) == IF k > Len(bs) THEN 0 ELSE Count0(bs[k]) + CountBases(bs, k + 1)
Count0(s) == CountBases(Structs[s].bases, 1) + Len(Structs[s].fields)

\* ---- encoding --------------------------------------------------------------------
\* length of an integer with variable length: 7 bits per byte
VarSize(m) == CHOOSE l \in 1..9 : (l = 9 \/ Leq(m, Pow2m1(7 * l))) /\ \A j \in 1..(l - 1) : ~Leq(m, Pow2m1(7 * j))
VarLen(m) == LET l == VarSize(m) IN [k \in 1..l |-> IF k = 1 THEN m[8 - l + 1] + 2 ^ (8 - l) ELSE m[8 - l + k]]
FitsVar(m) == VarSize(m) <= 8
Size8(n) == Small(n).m
Low(m, bytes) == SubSeq(m, 9 - bytes, 8)

\* bit pattern of the 32-bit float with the value of the double x (which is the value of a float)
Sig23(x) == ((x[2] % 16) * 524288) + (x[3] * 2048) + (x[4] * 8) + (x[5] \div 32)      \* the highest 23 bits of the mantissa
F32Make(sign, e, m) == <<(sign * 128) + (e \div 2), ((e % 2) * 128) + (m \div 65536), (m \div 256) % 256, m % 256>>
F32Bits(x) ==
    LET sign == x[1] \div 128
        e == Exponent(x) - 1023
    IN IF IsZero(x) THEN F32Make(sign, 0, 0)
       ELSE IF e = 1024 THEN F32Make(sign, 255, Sig23(x))
       ELSE IF e >= -126 THEN F32Make(sign, e + 127, Sig23(x))
       ELSE F32Make(sign, 0, (8388608 + Sig23(x)) \div (2 ^ (-126 - e)))
F64Make(sign, e, m) == LET be == e + 1023 IN <<(sign * 128) + (be \div 16), ((be % 16) * 16) + (m \div 524288), (m \div 2048) % 256, (m \div 8) % 256, (m % 8) * 32, 0, 0, 0>>
RECURSIVE TopBit(_, _)
TopBit(m, p) == IF m \div (2 ^ p) > 0 THEN p ELSE TopBit(m, p - 1)
\* the other way round; <<>> for NaN
F32Val(b) ==
    LET sign == b[1] \div 128
        e == ((b[1] % 128) * 2) + (b[2] \div 128)
        m == ((b[2] % 128) * 65536) + (b[3] * 256) + b[4]
    IN IF e = 0 /\ m = 0 THEN <<b[1], 0, 0, 0, 0, 0, 0, 0>>
       ELSE IF e = 0 THEN LET h == TopBit(m, 22) IN F64Make(sign, h - 149, (m - 2 ^ h) * 2 ^ (23 - h))
       ELSE IF e = 255 THEN (IF m # 0 THEN <<>> ELSE F64Make(sign, 1024, 0))
       ELSE F64Make(sign, e - 127, m)

EncSt == [out |-> <<>>, seen |-> {}]
Put(st, bytes) == [st EXCEPT !.out = @ \o bytes]
\* numbers one after another (the same as EncSeq; written separately because copying the result for each of many elements takes too long)
EncInts(ty, e) == LET w == ty.w \div 8
                      B == [k \in 1..Len(e) |-> Low(TwoC(e[k].n, e[k].m), w)]
                  IN [j \in 1..(Len(e) * w) |-> B[((j - 1) \div w) + 1][((j - 1) % w) + 1]]

RECURSIVE Enc(_, _, _, _, _), EncSeq(_, _, _, _, _, _), EncRec(_, _, _, _, _, _), EncBases(_, _, _, _, _, _, _), EncFields(_, _, _, _, _, _, _), EncEntries(_, _, _, _, _, _)
\* addr: number of object -> 8 bytes of its identifier (a number)
Enc(ty, v, ver, st, addr) ==
    CASE ty.k = "bool" -> Put(st, <<IF v.b THEN 1 ELSE 0>>)
      [] ty.k \in {"int", "enum"} -> Put(st, Low(TwoC(v.n, v.m), ty.w \div 8))
      [] ty.k \in {"dt", "ts"} -> Put(st, TwoC(v.n, v.m))
      [] ty.k = "flt" -> Put(st, IF ty.w = 64 THEN v.x ELSE F32Bits(v.x))
      [] ty.k = "str" -> Put(st, VarLen(Size8(Len(v.s))) \o v.s)
      [] ty.k \in {"seq", "set"} /\ ty.of.k = "int" -> Put(st, VarLen(Size8(Len(v.e))) \o EncInts(ty.of, v.e))
      [] ty.k \in {"seq", "set"} -> EncSeq(ty.of, v.e, 1, ver, Put(st, VarLen(Size8(Len(v.e)))), addr)
      [] ty.k = "map" -> EncEntries(ty, v.e, 1, ver, Put(st, VarLen(Size8(Len(v.e)))), addr)
      [] ty.k = "tup" -> Enc(ty.of[2], v.e[2], ver, Enc(ty.of[1], v.e[1], ver, st, addr), addr)
      [] ty.k = "opt" /\ ty.p # "sptr" -> IF v.t = "null" THEN Put(st, <<0>>) ELSE Enc(ty.of, v.v, ver, Put(st, <<1>>), addr)
      [] ty.k = "opt" ->
           IF v.t = "null" THEN Put(st, <<0>>)
           ELSE LET a == IF v.id \in DOMAIN addr THEN addr[v.id] ELSE Zero8
                    big == ~FitsVar(a)
                    new == v.id \notin st.seen
                    hd == <<(IF new THEN 1 ELSE 2) + (IF big THEN 4 ELSE 0)>> \o (IF big THEN a ELSE VarLen(a))
                    s1 == [Put(st, hd) EXCEPT !.seen = @ \cup {v.id}]
                IN IF new THEN Enc(ty.of, v.v, ver, s1, addr) ELSE s1
      [] ty.k = "var" -> LET s1 == Put(st, <<v.i>>) IN IF ty.of[v.i + 1].k = "mono" THEN s1 ELSE Enc(ty.of[v.i + 1], v.v, ver, s1, addr)
      [] ty.k = "rec" -> EncRec(ty.n, v.f, 0, ver, st, addr)
EncSeq(ty, e, k, ver, st, addr) == IF k > Len(e) THEN st ELSE EncSeq(ty, e, k + 1, ver, Enc(ty, e[k], ver, st, addr), addr)
EncEntries(ty, e, k, ver, st, addr) ==
    IF k > Len(e) THEN st
    ELSE LET s1 == IF "key" \in DOMAIN ty THEN Enc(ty.key, e[k].k, ver, st, addr) ELSE Put(st, VarLen(Size8(Len(e[k].k))) \o e[k].k)
         IN EncEntries(ty, e, k + 1, ver, Enc(ty.of, e[k].v, ver, s1, addr), addr)
\* f: members of the most derived record, off: index of the first member of s within f
EncRec(s, f, off, ver, st, addr) ==
    LET s1 == EncBases(Structs[s].bases, 1, f, off, ver, st, addr)
        max == Structs[s].ver
        v2 == IF max > 0 THEN ApplyDefault(max, ver) ELSE ver
        s2 == IF max > 0 THEN Put(s1, VarLen(Size8(v2))) ELSE s1
    IN EncFields(s, f, off + CountBases(Structs[s].bases, 1), 1, v2, s2, addr)
EncBases(bs, k, f, off, ver, st, addr) ==
    IF k > Len(bs) THEN st ELSE EncBases(bs, k + 1, f, off + Count0(bs[k]), ver, EncRec(bs[k], f, off, ver, st, addr), addr)
EncFields(s, f, off, k, ver, st, addr) ==
    IF k > Len(Structs[s].fields) THEN st
    ELSE LET d == Structs[s].fields[k] IN
         EncFields(s, f, off, k + 1, ver, IF d.w /\ InVersion(s, k, ver) THEN Enc(d.t, f[off + k].v, ver, st, addr) ELSE st, addr)

Encode(ty, v, ver, addr) == Enc(ty, v, ver, EncSt, addr).out

\* ---- decoding --------------------------------------------------------------------
\* state: bytes, position (number of consumed bytes), exception, table of pointers (identifier -> object), objects
DecSt(b) == [b |-> b, p |-> 0, x |-> "none", pt |-> <<>>, heap |-> <<>>, ids |-> <<>>, pres |-> Zero8, max |-> 0, rec |-> "", huge |-> FALSE, loose |-> FALSE]
D(v, st) == [v |-> v, st |-> st]
Raise(st, x) == [st EXCEPT !.x = x]
Have(st, n) == st.p + n <= Len(st.b)
Take(st, n) == SubSeq(st.b, st.p + 1, st.p + n)
Adv(st, n) == [st EXCEPT !.p = @ + n]
Pad8(bs) == [k \in 1..8 |-> IF k <= 8 - Len(bs) THEN 0 ELSE bs[k - (8 - Len(bs))]]
LeadingZeros(b) == CHOOSE n \in 0..7 : b \div (2 ^ (7 - n)) = 1

\* integer with variable length: m = magnitude
ReadVar(st) ==
    IF st.x # "none" THEN D(Zero8, st)
    ELSE IF ~Have(st, 1) THEN D(Zero8, Raise(st, "io"))
    ELSE LET b == st.b[st.p + 1] IN
         IF b = 0 THEN D(Zero8, Raise(Adv(st, 1), "conv"))
         ELSE LET l == LeadingZeros(b) + 1 IN
              IF ~Have(st, l) THEN D(Zero8, Raise(st, "io"))
              ELSE LET bs == Take(st, l) IN D(Pad8([k \in 1..l |-> IF k = 1 THEN bs[1] - 2 ^ (8 - l) ELSE bs[k]]), Adv(st, l))
\* small natural number denoted by a magnitude (BigVer if it is not small)
Nat8(m) == IF (\E k \in 1..4 : m[k] # 0) \/ m[5] >= 64 THEN BigVer ELSE (m[5] * 16777216) + (m[6] * 65536) + (m[7] * 256) + m[8]

Fixed(st, n, F(_)) == IF st.x # "none" THEN D(Null, st) ELSE IF ~Have(st, n) THEN D(Null, Raise(st, "io")) ELSE D(F(Take(st, n)), Adv(st, n))
SignExt(bs, s) == [k \in 1..8 |-> IF k <= 8 - Len(bs) THEN (IF s /\ bs[1] >= 128 THEN 255 ELSE 0) ELSE bs[k - (8 - Len(bs))]]
ReadBytes(st, n) == IF st.x # "none" THEN D(<<>>, st) ELSE IF n = BigVer \/ ~Have(st, n) THEN D(<<>>, [Raise(st, "io") EXCEPT !.huge = TRUE]) ELSE D(Take(st, n), Adv(st, n))

AnyRec(s) == [t |-> "any"]
RECURSIVE Dec(_, _, _, _), DecSeq(_, _, _, _, _, _), DecRec(_, _, _, _, _), DecBases(_, _, _, _, _, _), DecFields(_, _, _, _, _, _), DecEntries(_, _, _, _, _), DecSet(_, _, _, _, _)
\* cur: value which is going to be overwritten
Dec(ty, cur, ver, st) ==
    IF st.x # "none" THEN D(cur, st)
    ELSE CASE ty.k = "bool" -> LET F(bs) == BoolV(bs[1] # 0) IN Fixed(st, 1, F)
      [] ty.k \in {"int", "enum"} -> LET F(bs) == FromTwoC(SignExt(bs, ty.s), ty.w, ty.s) IN Fixed(st, ty.w \div 8, F)
      [] ty.k = "dt" -> LET F(bs) == IntV(FALSE, bs) IN Fixed(st, 8, F)
      [] ty.k = "ts" -> LET F(bs) == FromTwoC(bs, 64, TRUE) IN Fixed(st, 8, F)
      [] ty.k = "flt" -> LET F(bs) == IF ty.w = 64 THEN Flt(bs) ELSE LET x == F32Val(bs) IN IF x = <<>> THEN AnyV ELSE Flt(x) IN Fixed(st, ty.w \div 8, F)
      [] ty.k = "str" -> LET n == ReadVar(st)
                             r == ReadBytes(n.st, Nat8(n.v)) IN IF r.st.x # "none" THEN D(cur, r.st) ELSE D(Str(r.v), r.st)
      [] ty.k = "seq" -> LET n == ReadVar(st) IN
                         IF n.st.x # "none" THEN D(cur, n.st)
                         ELSE LET c == Nat8(n.v)
                                  \* every element takes at least one byte (types for which this is not the case are not used)
                                  s1 == [n.st EXCEPT !.huge = @ \/ c > Len(st.b) - n.st.p] IN
                              LET r == DecSeq(ty.of, IF cur.t = "seq" THEN Len(cur.e) ELSE c, <<>>, c, ver, s1) IN D([t |-> "seq", e |-> r.v], r.st)
      [] ty.k = "set" -> LET n == ReadVar(st) IN
                         IF n.st.x # "none" THEN D(cur, n.st) ELSE LET r == DecSet(ty, <<>>, Nat8(n.v), ver, n.st) IN D([t |-> "set", e |-> r.v], r.st)
      [] ty.k = "map" -> LET n == ReadVar(st) IN
                         IF n.st.x # "none" THEN D(cur, n.st) ELSE LET r == DecEntries(ty, <<>>, Nat8(n.v), ver, n.st) IN D([t |-> "map", e |-> r.v], r.st)
      [] ty.k = "tup" -> LET C(k) == IF cur.t = "tup" THEN cur.e[k] ELSE AnyV
                             a == Dec(ty.of[1], C(1), ver, st)
                             b == Dec(ty.of[2], C(2), ver, a.st) IN D([t |-> "tup", e |-> <<a.v, b.v>>], b.st)
      [] ty.k = "opt" /\ ty.p # "sptr" ->
           IF ~Have(st, 1) THEN D(cur, Raise(st, "io"))
           ELSE IF st.b[st.p + 1] = 0 THEN D(Null, Adv(st, 1))
           ELSE LET r == Dec(ty.of, Default(ty.of), ver, Adv(st, 1)) IN D(Some(r.v), r.st)
      [] ty.k = "opt" ->
           IF ~Have(st, 1) THEN D(cur, Raise(st, "io"))
           ELSE LET mode == st.b[st.p + 1]
                    s1 == Adv(st, 1) IN
                IF mode = 0 THEN D(Null, s1)
                ELSE LET big == (mode \div 4) % 2 = 1
                         id == IF ~big THEN ReadVar(s1) ELSE LET F(bs) == bs IN Fixed(s1, 8, F) IN
                     IF id.st.x # "none" THEN D(cur, id.st)
                     ELSE IF mode % 4 = 1
                          THEN LET k == Len(id.st.heap) + 1
                                   s2 == [id.st EXCEPT !.heap = Append(@, [ty |-> ty.of, v |-> Default(ty.of)]),
                                                       !.ids = Append(@, id.v), !.pt = SelectSeq(@, LAMBDA e : e.id # id.v) \o <<[id |-> id.v, k |-> k]>>]
                                   r == Dec(ty.of, Default(ty.of), ver, s2)
                               IN D([t |-> "ref", id |-> k], [r.st EXCEPT !.heap[k].v = r.v])
                          ELSE LET hits == SelectSeq(id.st.pt, LAMBDA e : e.id = id.v) IN
                               IF Len(hits) = 0 THEN D(cur, Raise(id.st, "conv"))
                               ELSE IF id.st.heap[hits[1].k].ty.x # ty.of.x THEN D(cur, Raise(id.st, "conv"))
                               ELSE D([t |-> "ref", id |-> hits[1].k], id.st)
      [] ty.k = "var" ->
           IF ~Have(st, 1) THEN D(cur, Raise(st, "io"))
           ELSE LET i == st.b[st.p + 1]
                    s1 == Adv(st, 1) IN
                IF i >= Len(ty.of) THEN D(cur, Raise(s1, "conv"))
                ELSE IF ty.of[i + 1].k = "mono" THEN D([t |-> "var", i |-> i, v |-> Null], s1)
                ELSE LET r == Dec(ty.of[i + 1], Default(ty.of[i + 1]), ver, s1) IN D([t |-> "var", i |-> i, v |-> r.v], r.st)
      [] ty.k = "rec" -> LET c == IF cur.t = "rec" THEN cur ELSE [t |-> "rec", f |-> [k \in 1..Len(Flat[ty.n]) |-> [n |-> Flat[ty.n][k].f.n, v |-> AnyV]]]
                             r == DecRec(ty.n, c.f, 0, ver, st) IN D([t |-> "rec", f |-> r.v], r.st)
\* elements already present before (prev of them) keep whatever is not part of the data
DecSeq(ty, prev, acc, n, ver, st) ==
    IF st.x # "none" \/ Len(acc) = n THEN D(acc, st)
    ELSE IF ty.k = "int" /\ acc = <<>> /\ n <= Len(st.b) /\ Have(st, n * (ty.w \div 8))      \* the same as below (see EncInts)
    THEN LET w == ty.w \div 8 IN D([k \in 1..n |-> FromTwoC(SignExt(SubSeq(st.b, st.p + ((k - 1) * w) + 1, st.p + (k * w)), ty.s), ty.w, ty.s)], Adv(st, n * w))
    ELSE LET r == Dec(ty, IF Len(acc) + 1 > prev THEN Default(ty) ELSE AnyV, ver, st) IN DecSeq(ty, prev, Append(acc, r.v), n, ver, r.st)
DecSet(ty, acc, n, ver, st) ==
    IF st.x # "none" \/ n = 0 THEN D(acc, st)
    ELSE LET r == Dec(ty.of, Default(ty.of), ver, st)
             dup == ~ty.multi /\ \E k \in 1..Len(acc) : Same(ty.of, acc[k], r.v)
         IN DecSet(ty, IF dup THEN acc ELSE Append(acc, r.v), n - 1, ver, r.st)
DecEntries(ty, acc, n, ver, st) ==
    IF st.x # "none" \/ n = 0 THEN D(acc, st)
    ELSE LET kr == IF "key" \in DOMAIN ty THEN Dec(ty.key, Default(ty.key), ver, st)
                   ELSE LET l == ReadVar(st) IN ReadBytes(l.st, Nat8(l.v))
             r == Dec(ty.of, Default(ty.of), ver, kr.st)
             dup == ~ty.multi /\ \E k \in 1..Len(acc) : acc[k].k = kr.v
         IN DecEntries(ty, IF dup \/ r.st.x # "none" THEN acc ELSE Append(acc, [k |-> kr.v, v |-> r.v]), n - 1, ver, r.st)
DecRec(s, f, off, ver, st) ==
    LET b == DecBases(Structs[s].bases, 1, f, off, ver, st)
        o2 == off + CountBases(Structs[s].bases, 1)
        max == Structs[s].ver
    IN IF max = 0 THEN DecFields(s, b.v, o2, 1, ver, b.st)
       ELSE LET n == ReadVar(b.st)
                nv == Nat8(n.v) IN
            IF n.st.x # "none" THEN D(b.v, n.st)
            ELSE IF nv > max THEN D(b.v, [n.st EXCEPT !.x = "version", !.pres = n.v, !.max = max, !.rec = Structs[s].q])
            \* version 0 is never written; it means "unspecified" so it does not say how to read members within another version
            ELSE DecFields(s, b.v, o2, 1, nv, IF nv = 0 /\ ver # 0 THEN [n.st EXCEPT !.loose = TRUE] ELSE n.st)
DecBases(bs, k, f, off, ver, st) ==
    IF k > Len(bs) \/ st.x # "none" THEN D(f, st)
    ELSE LET r == DecRec(bs[k], f, off, ver, st) IN DecBases(bs, k + 1, r.v, off + Count0(bs[k]), ver, r.st)
DecFields(s, f, off, k, ver, st) ==
    IF k > Len(Structs[s].fields) \/ st.x # "none" THEN D(f, st)
    ELSE LET d == Structs[s].fields[k] IN
         IF d.r /\ InVersion(s, k, ver) THEN LET r == Dec(d.t, f[off + k].v, ver, st) IN DecFields(s, [f EXCEPT ![off + k].v = r.v], off, k + 1, ver, r.st)
         ELSE DecFields(s, f, off, k + 1, ver, st)

Decode(ty, cur, ver, b) == Dec(ty, cur, ver, DecSt(b))

\* ---- numbering objects in the order they are visited ------------------------------------
\* w: [num |-> numbers assigned so far (sequence of [k, n]), v |-> value]
RECURSIVE Canon(_, _, _, _), CanonSeq(_, _, _, _, _, _)
NumOf(num, k) == SelectSeq(num, LAMBDA e : e.k = k)
W(v, num) == [v |-> v, num |-> num]
Canon(ty, v, heap, num) ==
    IF v.t \in {"any", "null"} THEN W(v, num)
    ELSE CASE ty.k \in {"seq", "set"} /\ ty.of.k \in {"bool", "int", "enum", "flt", "str", "dt", "ts"} -> W(v, num)
           [] ty.k \in {"seq", "set"} -> LET T == [k \in 1..Len(v.e) |-> ty.of]
                                             r == CanonSeq(T, v.e, 1, heap, num, <<>>) IN W([v EXCEPT !.e = r.v], r.num)
      [] ty.k = "tup" -> LET T == ty.of
                             r == CanonSeq(T, v.e, 1, heap, num, <<>>) IN W([v EXCEPT !.e = r.v], r.num)
      [] ty.k = "map" -> LET T == [k \in 1..Len(v.e) |-> ty.of]
                             r == CanonSeq(T, [k \in 1..Len(v.e) |-> v.e[k].v], 1, heap, num, <<>>) IN
                         W([v EXCEPT !.e = [k \in 1..Len(v.e) |-> [k |-> v.e[k].k, v |-> r.v[k]]]], r.num)
      [] ty.k = "opt" /\ v.t = "some" -> LET r == Canon(ty.of, v.v, heap, num) IN W(Some(r.v), r.num)
      [] ty.k = "opt" -> LET hit == NumOf(num, v.id) IN
                         IF Len(hit) > 0 THEN W([t |-> "ref", id |-> hit[1].n], num)
                         ELSE LET n == Len(num) + 1
                                  r == Canon(ty.of, heap[v.id].v, heap, Append(num, [k |-> v.id, n |-> n]))
                              IN W([t |-> "ref", id |-> n, v |-> r.v], r.num)
      [] ty.k = "var" -> LET r == Canon(ty.of[v.i + 1], v.v, heap, num) IN W([v EXCEPT !.v = r.v], r.num)
      [] ty.k = "rec" -> LET T == [k \in 1..Len(v.f) |-> Flat[ty.n][k].f.t]
                             r == CanonSeq(T, [k \in 1..Len(v.f) |-> v.f[k].v], 1, heap, num, <<>>) IN
                         W([v EXCEPT !.f = [k \in 1..Len(v.f) |-> [n |-> v.f[k].n, v |-> r.v[k]]]], r.num)
      [] OTHER -> W(v, num)
CanonSeq(T, e, k, heap, num, acc) ==
    IF k > Len(e) THEN W(acc, num)
    ELSE LET r == Canon(T[k], e[k], heap, num) IN CanonSeq(T, e, k + 1, heap, r.num, Append(acc, r.v))
\* result of decoding with objects numbered as in the values observed
Result(ty, r) == Canon(ty, r.v, r.st.heap, <<>>).v

\* ---- what is kept by writing and reading at a version --------------------------------------
\* v as it is expected to come back when it is written at version ver into an object c (c.t = "any": unknown)
RECURSIVE KeptB(_, _, _, _), KeptRec(_, _, _, _, _), KeptBases(_, _, _, _, _, _), KeptFields(_, _, _, _, _, _)
KeptB(ty, v, c, ver) ==
    CASE ty.k \in {"seq", "set"} -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> KeptB(ty.of, v.e[k], IF ty.k = "seq" /\ (c.t = "any" \/ k <= Len(c.e)) THEN AnyV ELSE Default(ty.of), ver)]]
      [] ty.k = "map" -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> [k |-> v.e[k].k, v |-> KeptB(ty.of, v.e[k].v, Default(ty.of), ver)]]]
      [] ty.k = "tup" -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> KeptB(ty.of[k], v.e[k], IF c.t = "tup" THEN c.e[k] ELSE AnyV, ver)]]
      [] ty.k = "opt" -> IF v.t = "null" THEN v
                         ELSE IF v.t = "some" THEN Some(KeptB(ty.of, v.v, Default(ty.of), ver))
                         ELSE IF "v" \in DOMAIN v THEN [v EXCEPT !.v = KeptB(ty.of, v.v, Default(ty.of), ver)] ELSE v
      [] ty.k = "var" -> [v EXCEPT !.v = KeptB(ty.of[v.i + 1], v.v, Default(ty.of[v.i + 1]), ver)]
      [] ty.k = "rec" -> LET cc == IF c.t = "rec" THEN c.f ELSE [k \in 1..Len(v.f) |-> [n |-> v.f[k].n, v |-> AnyV]] IN [t |-> "rec", f |-> KeptRec(ty.n, v.f, cc, 0, ver)]
      [] OTHER -> v
KeptRec(s, f, c, off, ver) ==
    KeptFields(s, KeptBases(Structs[s].bases, 1, f, c, off, ver), c, off + CountBases(Structs[s].bases, 1), 1,
               IF Structs[s].ver > 0 THEN ApplyDefault(Structs[s].ver, ver) ELSE ver)
KeptBases(bs, k, f, c, off, ver) == IF k > Len(bs) THEN f ELSE KeptBases(bs, k + 1, KeptRec(bs[k], f, c, off, ver), c, off + Count0(bs[k]), ver)
KeptFields(s, f, c, off, k, ver) ==
    IF k > Len(Structs[s].fields) THEN f
    ELSE LET d == Structs[s].fields[k]
             x == IF d.w /\ d.r /\ InVersion(s, k, ver) THEN KeptB(d.t, f[off + k].v, c[off + k].v, ver) ELSE c[off + k].v
         IN KeptFields(s, [f EXCEPT ![off + k].v = x], c, off, k + 1, ver)
===============================================================================
