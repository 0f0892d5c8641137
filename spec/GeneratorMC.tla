------------------------------ MODULE GeneratorMC ------------------------------
(* All small translation units, built one definition after the other.             *)
(* Shape "classes": which classes are relevant; "members": which members are used *)
EXTENDS Generator, Json
CONSTANTS Shape, MaxRecords
VARIABLES tu
vars == <<tu>>

F == "json"     \* the formats are treated alike: units are replayed for both
Ser(b) == IF b THEN <<F>> ELSE <<>>
Mem(n, a, c, s) == [n |-> n, acc |-> a, const |-> c, static |-> s]
Name(k) == "R" \o ToString(k)
MName(k, i) == "m" \o ToString(k) \o "_" \o ToString(i)
\* sequences of base classes: no class is inherited twice
BaseSets(t) == {B \in SUBSET {k \in 1..Len(t) : t[k].complete} :
                   \A a, b \in B : a # b => a \notin Ancestors(t, b) /\ Ancestors(t, a) \cap Ancestors(t, b) = {}}
SeqOf(B, n) == LET RECURSIVE S(_)
                   S(k) == IF k > n THEN <<>> ELSE (IF k \in B THEN <<k>> ELSE <<>>) \o S(k + 1) IN S(1)

Classes(t) ==
    LET k == Len(t) + 1 IN
    {[q |-> Name(k), file |-> fl, complete |-> c, bases |-> SeqOf(B, Len(t)), ser |-> Ser(s), adapt |-> a, listed |-> Ser(l), friends |-> <<>>, ctor |-> TRUE,
      members |-> <<Mem(MName(k, 1), "public", FALSE, FALSE)>>] :
        fl \in (IF t = <<>> \/ t[Len(t)].file = "inc" THEN {"main", "inc"} ELSE {"main"}), c \in BOOLEAN, B \in BaseSets(t), s \in BOOLEAN,
        a \in {<<>>, <<[f |-> F, file |-> "main"]>>, <<[f |-> F, file |-> "inc"]>>}, l \in BOOLEAN}
ValidClass(t, r) ==
    /\ ~r.complete => r.bases = <<>> /\ r.ser = <<>>
    /\ r.file = "main" => [f |-> F, file |-> "inc"] \notin Range(r.adapt)
    \* base classes whose code is supposed to come from another file: known finding, see DESIGN.md
    /\ LET t2 == Append(t, r) IN \A j \in Ancestors(t2, Len(t2)) : Relevant(t2, F, Len(t2)) /\ t2[j].file = "inc" => Relevant(t2, F, j) \/ (t2[j].ser = <<>> /\ t2[j].adapt = <<>>)

MemberSeqs(k) ==
    LET One(i) == {Mem(MName(k, i), a, c, s) : a \in {"public", "protected", "private"}, c \in BOOLEAN, s \in BOOLEAN} IN
    {<<x>> : x \in One(1)} \cup {<<x, y>> : x \in One(1), y \in One(2)}
WithMembers(t) ==
    LET k == Len(t) + 1 IN
    {[q |-> Name(k), file |-> "main", complete |-> TRUE, bases |-> b, ser |-> Ser(s), adapt |-> <<>>, listed |-> <<>>, friends |-> fr, ctor |-> c, members |-> m] :
        b \in (IF k = 1 THEN {<<>>} ELSE {<<>>, <<k - 1>>}), s \in (IF k = 1 THEN {TRUE} ELSE BOOLEAN), fr \in {<<>>, <<"push">>, <<"pull">>, <<"push", "pull">>},
        c \in BOOLEAN, m \in (IF k = 1 THEN MemberSeqs(k) ELSE {<<Mem(MName(k, 1), "private", FALSE, FALSE), Mem(MName(k, 2), "public", FALSE, FALSE)>>})}
\* a base class which is read needs a default constructor
ValidMembers(t, r) == LET t2 == Append(t, r) IN \A j \in RelevantAncestors(t2, F, Len(t2)) : r.ctor => t2[j].ctor

Init == tu = <<>>
Next == /\ Len(tu) < MaxRecords
        /\ \E r \in (IF Shape = "classes" THEN Classes(tu) ELSE WithMembers(tu)) :
              /\ (IF Shape = "classes" THEN ValidClass(tu, r) ELSE ValidMembers(tu, r))
              /\ tu' = Append(tu, r)

K == 1..Len(tu)
Dirs == {"out", "in"}
Once(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
\* every accessible member of the class and of all of its relevant base classes is used exactly once
Complete == \A k \in K, d \in Dirs : Relevant(tu, F, k) =>
               LET m == Members(tu, F, d, k) IN
               /\ Once(m)
               /\ Range(m) = UNION {Range(Own(tu, F, d, j)) : j \in {k} \cup RelevantAncestors(tu, F, k)}
\* members of a base class precede those of classes derived from it
BasesFirst == \A k \in K, d \in Dirs : Relevant(tu, F, k) =>
                 LET m == Members(tu, F, d, k) IN
                 \A i, j \in 1..Len(m) : \A a, b \in {k} \cup RelevantAncestors(tu, F, k) :
                    a \in Ancestors(tu, b) /\ m[i] \in Range(Own(tu, F, d, a)) /\ m[j] \in Range(Own(tu, F, d, b)) => i < j
\* whatever can be read has been written (with the helper functions being friends likewise)
ReadIsWritten == \A k \in K : Relevant(tu, F, k) /\ (\A j \in {k} \cup Ancestors(tu, k) : ("push" \in Range(tu[j].friends)) = ("pull" \in Range(tu[j].friends))) =>
                    Range(Members(tu, F, "in", k)) \subseteq Range(Members(tu, F, "out", k))
NoCodeForForeign == \A k \in K : tu[k].file = "inc" /\ [f |-> F, file |-> "main"] \notin Range(tu[k].adapt) => ~Relevant(tu, F, k)
\* further classes have no influence on the code for those which are there
Local == [][\A k \in K, d \in Dirs : Relevant(tu', F, k) = Relevant(tu, F, k) /\ Members(tu', F, d, k) = Members(tu, F, d, k)]_vars
Emit == Len(tu) = MaxRecords => PrintT("TU" \o ToJson(tu))
===============================================================================
