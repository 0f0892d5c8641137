--------------------------------- MODULE BinObs ---------------------------------
(* Decides whether what was observed when running the real binary (de)serializer  *)
(* is allowed by the specification (BinMap.tla).                                 *)
EXTENDS Integers, Sequences, TLC, BinMap

CONSTANTS Clauses

IdsDistinct(ids) == \A j, k \in 1..Len(ids) : ids[j] = ids[k] => j = k

\* the version an object of type ty is read at if version ver is passed
RetVer(ty, wver, rver) == IF ty.k = "rec" /\ Structs[ty.n].ver > 0 THEN ApplyDefault(Structs[ty.n].ver, wver) ELSE rver
V(m) == Nat8(m)

\* what has to be observed if reading b into cur at version ver ends like r
SameExc(o, r) ==
    /\ o.exc = r.st.x \/ (r.st.x # "none" /\ r.st.huge /\ o.exc = "alloc")
    /\ o.exc = "version" => o.pres = r.st.pres /\ o.max = Size8(r.st.max) /\ o.rec = r.st.rec
ReadOk(o, ty, r) ==
    r.st.loose \/
    /\ SameExc(o, r)
    /\ r.st.x = "none" => ("pos" \in Clauses => o.pos = r.st.p) /\ ("val" \in Clauses => Same(ty, Result(ty, r), o.res))

AcceptRt(o) ==
    LET n == Len(o.bytes)
        r == Decode(o.ty, Default(o.ty), V(o.wver), o.bytes)
        e == Encode(o.ty, o.val2, V(o.wver), r.st.ids)
    IN /\ "wire" \in Clauses => r.st.x = "none" /\ r.st.p = n /\ IdsDistinct(r.st.ids) /\ e = o.bytes
       /\ "const" \in Clauses => Same(o.ty, o.val2, o.val3)
       /\ "rt" \in Clauses => /\ o.exc = "none"
                               /\ o.pos = n
                               /\ Same(o.ty, KeptB(o.ty, o.val2, o.cur2, V(o.wver)), o.res)
       /\ "ret" \in Clauses => (o.rapi \in {"member", "des"} => V(o.ret) = RetVer(o.ty, V(o.wver), V(o.rver)))

AcceptDec(o) == LET r == Decode(o.ty, o.cur2, V(o.rver), o.bytes) IN ReadOk(o, o.ty, r)

AcceptWfault(o) ==
    /\ Same(o.ty, o.val2, o.val3)
    /\ LET r == Decode(o.ty, Default(o.ty), V(o.wver), o.bytes) IN r.st.x = "none" /\ Encode(o.ty, o.val2, V(o.wver), r.st.ids) = o.bytes
    /\ Len(o.faults) = Len(o.bytes) + 1
    /\ \A k \in 1..Len(o.faults) :
          LET f == o.faults[k]
              hit == k - 1 < Len(o.bytes)         \* the device is full before everything has been written
          IN /\ f.out = SubSeq(o.bytes, 1, k - 1)
             /\ f.failed = hit
             /\ f.exc = IF hit /\ o.mode # 2 THEN "io" ELSE "none"
AcceptRfault(o) ==
    \A k \in 1..Len(o.faults) :
       LET f == o.faults[k]
           r == Decode(o.ty, Default(o.ty), V(o.rver), SubSeq(o.bytes, 1, k - 1))
       IN SameExc(f, r)

\* ---- several objects on one stream ---------------------------------------------------------
\* one (de)serializer: the pointers known so far are kept
RECURSIVE EncAll(_, _, _, _), DecAll(_, _, _, _, _, _, _)
EncAll(ws, k, st, addr) ==
    IF k > Len(ws) THEN st ELSE IF "raw" \in DOMAIN ws[k] THEN EncAll(ws, k + 1, Put(st, ws[k].raw), addr) ELSE EncAll(ws, k + 1, Enc(ws[k].ty, ws[k].val2, V(ws[k].wver), st, addr), addr)
\* returns sequence of [r, num]: result of each read and numbering
DecAll(ws, cur, ver, k, st, num, acc) ==
    IF k > Len(ws) THEN [acc |-> acc, st |-> st]
    ELSE LET r == Dec(ws[k].ty, cur[k], ver[k], st) IN
         IF r.st.x # "none" THEN [acc |-> acc, st |-> r.st]
         ELSE LET c == Canon(ws[k].ty, r.v, r.st.heap, num) IN DecAll(ws, cur, ver, k + 1, r.st, c.num, Append(acc, [v |-> c.v, p |-> r.st.p]))
AcceptSegment(ws, bytes, reads) ==
    LET D0 == [k \in 1..Len(ws) |-> Default(ws[k].ty)]
        VW == [k \in 1..Len(ws) |-> V(ws[k].wver)]
        d == DecAll(ws, D0, VW, 1, DecSt(bytes), <<>>, <<>>)
        e == EncAll(ws, 1, EncSt, d.st.ids)
    IN /\ d.st.x = "none" /\ d.st.p = Len(bytes) /\ IdsDistinct(d.st.ids)
       /\ e.out = bytes
       /\ Len(reads) = Len(ws)
       /\ \A k \in 1..Len(ws) :
             /\ reads[k].exc = "none"
             /\ reads[k].pos = d.acc[k].p
             /\ Same(ws[k].ty, KeptB(ws[k].ty, ws[k].val2, Default(ws[k].ty), V(ws[k].wver)), reads[k].res)
RECURSIVE SumLen(_, _)
SumLen(ws, k) == IF k = 0 THEN 0 ELSE ws[k].end
\* what a reader makes of the bytes: one deserializer for all objects (rone) or a new one for each, which does not know any pointers
RECURSIVE AcceptReads(_, _, _, _, _, _)
AcceptReads(ws, rone, reads, k, st, num) ==
    IF k > Len(ws) THEN Len(reads) = Len(ws)
    ELSE /\ Len(reads) >= k
         /\ LET s0 == IF rone THEN st ELSE [st EXCEPT !.pt = <<>>, !.heap = <<>>, !.ids = <<>>]
                r == Dec(ws[k].ty, Default(ws[k].ty), V(ws[k].wver), s0) IN
            /\ SameExc(reads[k], r)
            /\ IF r.st.x # "none" THEN TRUE   \* whatever is read from there on is not specified
               ELSE LET c == Canon(ws[k].ty, r.v, r.st.heap, IF rone THEN num ELSE <<>>) IN
                    /\ reads[k].pos = r.st.p
                    /\ Same(ws[k].ty, c.v, reads[k].res)
                    /\ AcceptReads(ws, rone, reads, k + 1, r.st, c.num)
AcceptWrites(ws, bytes) ==
    LET d == DecAll(ws, [k \in 1..Len(ws) |-> Default(ws[k].ty)], [k \in 1..Len(ws) |-> V(ws[k].wver)], 1, DecSt(bytes), <<>>, <<>>)
    IN d.st.x = "none" /\ d.st.p = Len(bytes) /\ IdsDistinct(d.st.ids) /\ EncAll(ws, 1, EncSt, d.st.ids).out = bytes
\* one deserializer which skips objects it could not read or which it read differently than they had been written (ws[k].raw: arbitrary bytes):
\* this has no effect on what it reads from there on
RECURSIVE Skipping(_, _, _, _, _)
Skipping(ws, reads, k, st, num) ==
    IF k > Len(ws) THEN [ok |-> TRUE, st |-> st]
    ELSE LET r == Dec(ws[k].ty, Default(ws[k].ty), V(ws[k].wver), st) IN
         IF "raw" \in DOMAIN ws[k]
         THEN IF r.st.loose \/ (SameExc(reads[k], r) /\ (r.st.x = "none" => reads[k].pos = r.st.p /\ Same(ws[k].ty, r.v, reads[k].res)))
              THEN Skipping(ws, reads, k + 1, [st EXCEPT !.p = ws[k].end], num)
              ELSE [ok |-> FALSE, st |-> st]
         ELSE LET c == Canon(ws[k].ty, r.v, r.st.heap, num) IN
              IF r.st.x = "none" /\ reads[k].exc = "none" /\ r.st.p = ws[k].end /\ reads[k].pos = r.st.p
                 /\ Same(ws[k].ty, KeptB(ws[k].ty, ws[k].val2, Default(ws[k].ty), V(ws[k].wver)), reads[k].res)
              THEN Skipping(ws, reads, k + 1, r.st, c.num)
              ELSE [ok |-> FALSE, st |-> st]
AcceptSkips(o) ==
    /\ Len(o.reads) = Len(o.writes)
    /\ LET d == Skipping(o.writes, o.reads, 1, DecSt(o.bytes), <<>>) IN
       d.ok /\ d.st.p = Len(o.bytes) /\ IdsDistinct(d.st.ids) /\ EncAll(o.writes, 1, EncSt, d.st.ids).out = o.bytes
AcceptSeq(o) ==
    IF \E k \in 1..Len(o.writes) : "raw" \in DOMAIN o.writes[k] THEN AcceptSkips(o)
    ELSE IF o.one # o.rone
    THEN /\ o.writes[Len(o.writes)].end = Len(o.bytes)
         /\ AcceptReads(o.writes, o.rone, o.reads, 1, DecSt(o.bytes), <<>>)
         /\ IF o.one THEN AcceptWrites(o.writes, o.bytes)
            ELSE \A k \in 1..Len(o.writes) : AcceptWrites(<<o.writes[k]>>, SubSeq(o.bytes, (IF k = 1 THEN 0 ELSE o.writes[k - 1].end) + 1, o.writes[k].end))
    ELSE IF o.one THEN AcceptSegment(o.writes, o.bytes, o.reads)
    ELSE /\ Len(o.reads) = Len(o.writes) /\ o.writes[Len(o.writes)].end = Len(o.bytes)
         /\ \A k \in 1..Len(o.writes) :
              LET from == IF k = 1 THEN 0 ELSE o.writes[k - 1].end IN
              AcceptSegment(<<o.writes[k]>>, SubSeq(o.bytes, from + 1, o.writes[k].end), <<[o.reads[k] EXCEPT !.pos = @ - from]>>)
\* history: one segment per serializer
AcceptHist(o) == \A s \in 1..Len(o.segs) : AcceptSegment(o.segs[s].writes, o.sbytes[s], o.sreads[s])

\* several threads write one object at the same time
AcceptShared(o) ==
    /\ Same(o.ty, o.val2, o.val3)
    /\ \A k \in 1..Len(o.written) :
         LET b == o.written[k]
             r == Decode(o.ty, Default(o.ty), V(o.wver), b)
         IN r.st.x = "none" /\ r.st.p = Len(b) /\ IdsDistinct(r.st.ids) /\ Encode(o.ty, o.val2, V(o.wver), r.st.ids) = b
\* several operations at the same time: each yields what is allowed for it alone
AcceptPar(o) == \A k \in 1..Len(o.parts) : LET p == o.parts[k] IN CASE p.op = "rt" -> AcceptRt(p) [] p.op = "dec" -> AcceptDec(p)

Accept(o) ==
    CASE o.crash # "" -> FALSE
      [] o.op = "rt" -> AcceptRt(o)
      [] o.op = "dec" -> AcceptDec(o)
      [] o.op = "wfault" -> AcceptWfault(o)
      [] o.op = "rfault" -> AcceptRfault(o)
      [] o.op = "seq" -> AcceptSeq(o)
      [] o.op = "hist" -> AcceptHist(o)
      [] o.op = "par" -> AcceptPar(o)
      [] o.op = "shared" -> AcceptShared(o)

Explain(o) ==
    CASE o.crash # "" -> o.crash
      [] o.op = "rt" -> LET r == Decode(o.ty, Default(o.ty), V(o.wver), o.bytes) IN
                        [exc |-> r.st.x, consumed |-> r.st.p, expected_bytes |-> IF r.st.x = "none" THEN Encode(o.ty, o.val2, V(o.wver), r.st.ids) ELSE <<>>, kept |-> KeptB(o.ty, o.val2, o.cur2, V(o.wver))]
      [] o.op = "dec" -> LET r == Decode(o.ty, o.cur2, V(o.rver), o.bytes) IN [exc |-> r.st.x, huge |-> r.st.huge, pos |-> r.st.p, res |-> IF r.st.x = "none" THEN Result(o.ty, r) ELSE Null]
      [] OTHER -> "see observation"
===============================================================================
