--------------------------------- MODULE JsonObs ---------------------------------
(* Decides whether what was observed when running the real library is allowed by  *)
(* the specification (JsonMap.tla). Every observation is one state; the invariant     *)
(* (see JsonObsRun) fails for those which are not allowed.                        *)
EXTENDS Integers, Sequences, TLC, JsonMap

CONSTANTS Clauses       \* which aspects of an observation are decided

\* ---- formatting of errors (errorformatting.h) -------------------------------------
KindText == [TypeMismatch |-> "type mismatch", ArraySizeMismatch |-> "array size mismatch", ConversionError |-> "conversion error",
             UnexpectedDuplicate |-> "unexpected duplicate", InvalidVariantObject |-> "invalid variant object", InvalidVariantIndex |-> "invalid variant index"]
TypeText == [Null |-> "null", Number |-> "number", Bool |-> "bool", String |-> "string", Array |-> "array", Object |-> "object"]
Q == "\""
FormatOf(e) ==
    LET add == IF e.k = "TypeMismatch" THEN ": expected " \o Q \o TypeText[e.e] \o Q \o ", got " \o Q \o TypeText[e.a] \o Q ELSE ""
        rec == " within record " \o Q \o e.r \o Q
    IN IF e.r # "" /\ e.m # "" THEN KindText[e.k] \o rec \o " and member " \o Q \o e.m \o Q \o add
       ELSE IF e.r # "" /\ e.i # -1 THEN KindText[e.k] \o rec \o " and index " \o Q \o ToString(e.i) \o Q \o add
       ELSE IF e.r # "" THEN KindText[e.k] \o rec \o add
       ELSE KindText[e.k] \o " in document" \o add

SameErr(a, b) == a.k = b.k /\ a.e = b.e /\ a.a = b.a /\ a.r = b.r /\ a.m = b.m /\ a.i = b.i
SameErrs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameErr(a[k], b[k])
SameProbes(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].r = b[k].r /\ a[k].m = b[k].m /\ a[k].i = b[k].i /\ a[k].ne = b[k].ne /\ a[k].v.m = b[k].v.m
Formats(errs) == \A k \in 1..Len(errs) : errs[k].fmt = FormatOf(errs[k])
CtxOf(x) == [r |-> x.r, m |-> x.m, i |-> x.i]
InitCtx == CtxOf(InitState)
CleanCtx(x) == CtxOf(x) = InitCtx

\* what has to come back when deserializing what was serialized: everything but members which are excluded on purpose
RECURSIVE Kept(_, _)
Kept(ty, v) ==
    CASE ty.k = "view" -> AnyV
      [] ty.k \in {"dt", "ts"} -> [t |-> "near", n |-> v.n, m |-> v.m]
      [] ty.k \in {"seq", "set"} -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> Kept(ty.of, v.e[k])]]
      [] ty.k = "map" -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> [k |-> v.e[k].k, v |-> Kept(ty.of, v.e[k].v)]]]
      [] ty.k = "tup" -> [v EXCEPT !.e = [k \in 1..Len(v.e) |-> Kept(ty.of[k], v.e[k])]]
      [] ty.k = "opt" -> IF v.t = "null" THEN v
                         \* JSON has only one null: an empty optional within another one is not distinguishable from an empty outer one
                         ELSE LET i == Kept(ty.of, v.v) IN IF ty.of.k = "opt" /\ i.t = "null" THEN i ELSE Some(i)
      [] ty.k = "var" -> [v EXCEPT !.v = Kept(ty.of[v.i + 1], v.v)]
      [] ty.k = "rec" -> [v EXCEPT !.f = [k \in 1..Len(v.f) |-> [n |-> v.f[k].n, v |->
            LET f == Flat[ty.n][k].f IN IF f.push /\ f.pull THEN Kept(f.t, v.f[k].v) ELSE AnyV]]]
      [] OTHER -> v

\* serialization; d is the document read from the produced text by an independent parser
AcceptSer(o) == ("doc" \in Clauses => o.d.t # "invalid" /\ SameDoc(ToDoc(o.ty, o.val2), o.d))
AcceptRt(o) ==
    /\ AcceptSer(o)
    /\ "rt" \in Clauses => o.d.t # "invalid" /\ o.exc = "none" /\ Len(o.errs) = 0 /\ CleanCtx(o.ctx) /\ Same(o.ty, Kept(o.ty, o.val2), o.res)
\* the document must not change whatever happens to the object after populating it
AcceptLife(o) == \A k \in 1..Len(o.docs) : o.docs[k].t # "invalid" /\ SameDoc(ToDoc(o.ty, o.val2), o.docs[k])

\* st: state before
ExpectedFrom(o, st) ==
    LET opt == [we |-> o.we, thr |-> o.thr] IN
    IF o.d.t = "invalid" THEN R(o.cur2, [st EXCEPT !.x = "parse"])
    ELSE IF o.top THEN FromJson(o.ty, o.d, st, opt) ELSE Pull(o.ty, o.d, o.cur2, st, opt)
Expected(o) == ExpectedFrom(o, InitState)
AcceptFrom(o, st) ==
    LET e == ExpectedFrom(o, st) IN
    e.st.x = "open" \/
    /\ "exc" \in Clauses => o.exc = e.st.x
    /\ "val" \in Clauses => (e.st.x # "error" => Same(o.ty, e.v, o.res))
    /\ "errs" \in Clauses => SameErrs(e.st.errs, o.errs)
    /\ "fmt" \in Clauses => Formats(o.errs)
    /\ "ctx" \in Clauses => CtxOf(o.ctx) = CtxOf(st)      \* also if an exception has been thrown
    /\ "probes" \in Clauses => SameProbes(e.st.pr, o.probes)
AcceptDe(o) == AcceptFrom(o, InitState)
\* several documents are read with the same list of errors (and into the same object): each step starts in the state observed after the
\* previous one, that is with the errors reported so far and the context the caller has set
OwnCtx == [InitState EXCEPT !.r = "Own::Record", !.m = "own", !.i = 7]
AcceptDes(o) == \A k \in 1..Len(o.steps) :
    AcceptFrom(o.steps[k], [(IF o.ctx0 THEN OwnCtx ELSE InitState) EXCEPT !.errs = IF k = 1 THEN <<>> ELSE o.steps[k - 1].errs])

\* several operations at the same time: each yields what is allowed for it alone; strict: they have been interleaved exactly as in the
\* behaviour of JsonConcurrentMC (so there are as many points where operations continue as the machine has)
AcceptPar(o) ==
    /\ \A k \in 1..Len(o.parts) : LET p == o.parts[k] IN CASE p.op = "de" -> AcceptDe(p) [] p.op = "rt" -> AcceptRt(p) [] p.op = "des" -> AcceptDes(p)
    /\ o.strict => o.ran = o.sched

Accept(o) ==
    CASE o.crash # "" -> FALSE
      [] o.op = "ser" -> AcceptSer(o)
      [] o.op = "rt" -> AcceptRt(o)
      [] o.op = "life" -> AcceptLife(o)
      [] o.op = "de" -> AcceptDe(o)
      [] o.op = "des" -> AcceptDes(o)
      [] o.op = "par" -> AcceptPar(o)

Explain(o) ==
    CASE o.crash # "" -> o.crash
      [] o.op \in {"ser", "rt", "life"} -> ToDoc(o.ty, o.val2)
      [] o.op = "de" -> Expected(o)
      [] o.op = "des" -> [k \in 1..Len(o.steps) |-> Expected(o.steps[k])]
      [] o.op = "par" -> [k \in 1..Len(o.parts) |-> LET p == o.parts[k] IN CASE p.op = "de" -> Expected(p) [] p.op = "rt" -> ToDoc(p.ty, p.val2) [] OTHER -> Null]
===============================================================================
