------------------------------------ MODULE GenCli ------------------------------------
(* The code generator as a command: arguments, streams and the exit code.                *)
(*                                                                                       *)
(* A call c consists of                                                                  *)
(*   gens   the value of --generators; absent: <<"default">>                             *)
(*   file   whether the input exists, cls: what formats the classes of the input are     *)
(*          made for ("cond": only if EXTRA is defined), errs: errors within the input   *)
(*          in the order of occurrence                                                   *)
(*   out    "stdout", "file" or something one cannot write to ("unopenable", "full")     *)
(*   cap    how many units of code the device is able to store (-1: no limit)            *)
(*   res    --error-resilient, log: --log-clang-opt, vj/vb: visibility attributes        *)
(*   opts   values of --clang-opt, each one a sequence of what is separated by ";"       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Formats == {"json", "binary"}
SemErrors == {"sem", "many"}            \* semantic errors in code which is not related to the classes
HardErrors == {"lex", "inc", "fatal"}   \* syntax errors, missing includes, #error

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE SelectSeq(Head(ss), LAMBDA o : o # "") \o Flatten(Tail(ss))
Options(c) == Flatten(c.opts)
Defined(c) == \E k \in 1..Len(Options(c)) : Options(c)[k] = "-DEXTRA"

Chosen(c) == IF c.gens = <<"default">> THEN <<"json">> ELSE c.gens
GensOk(c) == \A k \in 1..Len(Chosen(c)) : Chosen(c)[k] \in Formats
InputOk(c) == c.file /\ \A k \in 1..Len(c.errs) : c.errs[k] \in SemErrors /\ c.res
Relevant(c) == IF c.cls = "cond" THEN IF Defined(c) THEN Formats ELSE {}
               ELSE IF c.cls = "both" THEN Formats ELSE IF c.cls = "none" THEN {} ELSE {c.cls}
Section(c, g) == [g |-> g, vis |-> IF g = "json" THEN c.vj ELSE c.vb]
\* the code which makes up the result of a successful call
RECURSIVE Sections(_, _)
Sections(c, gs) == IF gs = <<>> THEN <<>>
                   ELSE (IF Head(gs) \in Relevant(c) THEN <<Section(c, Head(gs))>> ELSE <<>>) \o Sections(c, Tail(gs))
Code(c) == Sections(c, Chosen(c))
\* len is the number of units the code consists of
Fits(c, len) == (c.out = "full" => len = 0) /\ (c.cap < 0 \/ len <= c.cap)
MustSucceed(c, len) == c.out # "unopenable" /\ GensOk(c) /\ InputOk(c) /\ Fits(c, len)
=======================================================================================
