----------------------------------- MODULE GenCliMC -----------------------------------
(* Calls of the generator, one after the other, using the same output file. The code     *)
(* passes a buffer which is emptied at arbitrary points in time.                         *)
EXTENDS GenCli, TLC, Json
CONSTANTS Calls,        \* number of calls in a row
          Full          \* whether all combinations of arguments are considered
VARIABLES pc, call, file, std, buf, failed, code, msg, n, hist, first

Gens == {<<"default">>, <<>>, <<"json">>, <<"binary">>, <<"json", "binary">>, <<"binary", "json">>, <<"nope">>, <<"json", "nope">>, <<"nope", "binary">>}
Errs == {<<>>, <<"sem">>, <<"lex">>, <<"inc">>, <<"fatal">>, <<"many">>, <<"sem", "lex">>, <<"lex", "sem">>, <<"sem", "many">>, <<"inc", "sem">>}
Opts == {<<>>, <<<<"-w">>>>, <<<<"-w", "-DEXTRA">>>>, <<<<"-w">>, <<"-DEXTRA">>>>, <<<<"", "-w", "", "-DEXTRA", "">>, <<"">>>>, <<<<"-UEXTRA">>, <<"-DOTHER", "-w">>>>}
Plain == [gens |-> <<"default">>, file |-> TRUE, cls |-> "both", errs |-> <<>>, out |-> "stdout", cap |-> -1, res |-> FALSE, log |-> FALSE, vj |-> "", vb |-> "", opts |-> <<<<"-w">>>>]
Inputs == {[cls |-> x, errs |-> e] : x \in {"both", "json", "binary", "none", "cond"}, e \in Errs}
\* calls are either the product of two groups of arguments or (Full) of all
A == {[Plain EXCEPT !.gens = g, !.cls = x, !.out = o] : g \in Gens, x \in {"both", "json", "binary", "none"}, o \in {"stdout", "file", "unopenable", "full", "stdfull"}}
B == {[Plain EXCEPT !.cls = i.cls, !.errs = i.errs, !.res = r, !.out = o] : i \in Inputs, r \in BOOLEAN, o \in {"stdout", "file"}}
C == {[Plain EXCEPT !.opts = p, !.log = l, !.cls = x, !.out = o] : p \in Opts, l \in BOOLEAN, x \in {"cond", "both"}, o \in {"stdout", "file"}}
D == {[Plain EXCEPT !.gens = g, !.vj = j, !.vb = b, !.cls = x] : g \in {<<"default">>, <<"json", "binary">>, <<"binary", "json">>, <<"binary">>}, j \in {"", "VJ"}, b \in {"", "VB"}, x \in {"both", "json"}}
E == {[Plain EXCEPT !.file = FALSE, !.gens = g, !.res = r, !.out = o] : g \in {<<"default">>, <<"binary">>, <<>>}, r \in BOOLEAN, o \in {"stdout", "file"}}
F == {[Plain EXCEPT !.gens = g, !.cap = k, !.out = o, !.errs = e, !.res = TRUE] : g \in {<<"json">>, <<"json", "binary">>}, k \in 0..4, o \in {"stdout", "file"}, e \in {<<>>, <<"sem">>}}
X == {[gens |-> g, file |-> TRUE, cls |-> i.cls, errs |-> i.errs, out |-> o, cap |-> -1, res |-> r, log |-> l, vj |-> j, vb |-> "VB", opts |-> p] :
        g \in Gens, i \in Inputs, o \in {"stdout", "file"}, r \in BOOLEAN, l \in BOOLEAN, j \in {"", "VJ"}, p \in Opts}
All == A \cup B \cup C \cup D \cup E \cup F \cup (IF Full THEN X ELSE {})
\* what is used when there are several calls in a row
Short == {[Plain EXCEPT !.gens = g, !.cls = x, !.out = "file", !.errs = e, !.res = TRUE] : g \in {<<"json">>, <<"json", "binary">>, <<>>}, x \in {"both", "none"}, e \in {<<>>, <<"sem">>, <<"lex">>}}
Pool == IF Calls = 1 THEN All ELSE Short

\* one section consists of two units
Units(c) == LET s == Code(c) IN [k \in 1..(2 * Len(s)) |-> [s |-> s[(k + 1) \div 2], half |-> IF k % 2 = 1 THEN 1 ELSE 2]]
ToFile(c) == c.out \in {"file", "full", "unopenable"}
vars == <<pc, call, file, std, buf, failed, code, msg, n, hist, first>>

Init == /\ call \in Pool /\ first = call
        /\ pc = "open" /\ file = <<"absent">> /\ std = <<>> /\ buf = <<>> /\ failed = FALSE /\ code = -1 /\ msg = FALSE /\ n = 1 /\ hist = <<>>
Exit(k) == code' = k /\ msg' = (k # 0) /\ pc' = "done"
Open ==
    /\ pc = "open"
    /\ IF call.out = "unopenable" THEN Exit(1) /\ UNCHANGED file
       ELSE pc' = "setup" /\ file' = (IF call.out = "file" THEN <<>> ELSE file) /\ UNCHANGED <<code, msg>>
    /\ UNCHANGED <<call, std, buf, failed, n, hist, first>>
Setup ==
    /\ pc = "setup"
    /\ IF GensOk(call) THEN pc' = "compile" /\ UNCHANGED <<code, msg>> ELSE Exit(1)
    /\ UNCHANGED <<call, file, std, buf, failed, n, hist, first>>
\* errors might prevent some of the code from being generated
Compile ==
    /\ pc = "compile"
    /\ IF InputOk(call) THEN pc' = "write" /\ buf' = Units(call) /\ UNCHANGED <<code, msg>>
       ELSE \E k \in 0..Len(Units(call)) : pc' = "abort" /\ buf' = SubSeq(Units(call), 1, k) /\ UNCHANGED <<code, msg>>
    /\ UNCHANGED <<call, file, std, failed, n, hist, first>>
Sink == IF ToFile(call) THEN file ELSE std
Accepts(k) == IF call.out \in {"full", "stdfull"} THEN 0 ELSE IF call.cap < 0 \/ Len(Sink) + k <= call.cap THEN k ELSE call.cap - Len(Sink)
WriteSome ==
    /\ pc \in {"write", "abort"} /\ buf # <<>> /\ ~failed
    /\ \E k \in 1..Len(buf) :
        LET a == Accepts(k) IN
        /\ failed' = (a < k)
        /\ buf' = SubSeq(buf, k + 1, Len(buf))
        /\ IF call.out = "file" THEN file' = file \o SubSeq(buf, 1, a) /\ UNCHANGED std
           ELSE IF call.out = "stdout" THEN std' = std \o SubSeq(buf, 1, a) /\ UNCHANGED file
           ELSE UNCHANGED <<file, std>>
    /\ UNCHANGED <<pc, call, code, msg, n, hist, first>>
Finish ==
    /\ pc \in {"write", "abort"} /\ (buf = <<>> \/ failed)
    /\ Exit(IF pc = "abort" \/ failed THEN 1 ELSE 0)
    /\ UNCHANGED <<call, file, std, buf, failed, n, hist, first>>
Again ==
    /\ pc = "done" /\ n < Calls
    /\ call' \in Pool /\ n' = n + 1 /\ pc' = "open" /\ hist' = Append(hist, call)
    /\ buf' = <<>> /\ failed' = FALSE /\ code' = -1 /\ msg' = FALSE /\ std' = <<>>
    /\ UNCHANGED <<file, first>>
Next == Open \/ Setup \/ Compile \/ WriteSome \/ Finish \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Obs(c) == IF c.out = "stdfull" THEN [c EXCEPT !.out = "full"] ELSE c
Done == pc = "done"
\* success is reported if and only if the complete code has been stored - whatever has been in the file before
SuccessIsComplete == Done /\ code = 0 => (IF ToFile(call) THEN call.out = "full" \/ file = Units(call) ELSE call.out = "stdfull" \/ std = Units(call))
Determined == Done => (code = 0 <=> MustSucceed(Obs(call), Len(Units(call))))
FailureReported == Done => (code # 0 <=> msg)
\* streams which have not been requested stay untouched
StdoutOnlyCode == (ToFile(call) => std = <<>>) /\ \A k \in 1..Len(std) : std[k] = Units(call)[k]
FileOnlyIfRequested == n = 1 /\ call.out # "file" => file = <<"absent">>
\* formats are independent of each other
Independent == Code([call EXCEPT !.gens = <<"json", "binary">>]) = Code([call EXCEPT !.gens = <<"json">>]) \o Code([call EXCEPT !.gens = <<"binary">>])
Terminates == <>[]Done
Emit == Done /\ n = Calls => PrintT("CALL" \o ToJson([calls |-> Append(hist, call)]))
=======================================================================================
