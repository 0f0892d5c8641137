------------------------------- MODULE Generator -------------------------------
(* What the code generator makes of a translation unit: for which classes code is  *)
(* generated (per format), which functions are defined and which members they      *)
(* (de)serialize in which order.                                                  *)
(* A translation unit is the sequence of class definitions (main file and included *)
(* files) in the order of their definition:                                       *)
(*   q        qualified name                                                      *)
(*   file     "main" | "inc": where the class is defined                          *)
(*   complete whether there is a definition (and not only a declaration)          *)
(*   bases    positions of the direct base classes                                *)
(*   ser      formats whose ...Serializable template is a direct base             *)
(*   adapt    [f, file]: the class is adapted for format f in that file            *)
(*   listed   formats for which the class is specified via command line            *)
(*   friends  subset of {"push", "pull", "write", "read"}: helper functions which  *)
(*            are friends of the class                                            *)
(*   ctor     whether there is a default constructor                              *)
(*   members  [n, acc, const, static]                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Formats == {"json", "binary"}
Range(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Ancestors(_, _)
Ancestors(tu, k) == Range(tu[k].bases) \cup UNION {Ancestors(tu, j) : j \in Range(tu[k].bases)}

\* ---- relevant classes ----------------------------------------------------------------
Relevant(tu, f, k) ==
    /\ tu[k].complete
    /\ \/ [f |-> f, file |-> "main"] \in Range(tu[k].adapt)
       \/ tu[k].file = "main" /\ (f \in Range(tu[k].ser) \/ f \in Range(tu[k].listed))
AnyCode(tu, f) == \E k \in 1..Len(tu) : Relevant(tu, f, k)

\* helper function per format and direction
Helper(f, dir) == CASE f = "json" /\ dir = "out" -> "push" [] f = "json" -> "pull" [] dir = "out" -> "write" [] OTHER -> "read"
\* whether the helper function is defined for the class
Defined(tu, f, dir, k) == Relevant(tu, f, k) /\ (dir = "out" \/ tu[k].ctor)

\* ---- base classes ------------------------------------------------------------------------
RelevantAncestors(tu, f, k) == {j \in Ancestors(tu, k) : Relevant(tu, f, j)}
\* those which are not covered by another one
RelevantBases(tu, f, k) == LET A == RelevantAncestors(tu, f, k) IN {j \in A : \A i \in A : j \notin Ancestors(tu, i)}

\* bases which are (de)serializable in terms of f, no matter in which file that has been made up; only relevant ones
\* are known to the generator (known finding "base-in-included-header"; CompleteBases decides whether a unit is affected)
SerializableAnywhere(tu, f, k) == tu[k].complete /\ (f \in Range(tu[k].ser) \/ f \in Range(tu[k].listed) \/ \E a \in Range(tu[k].adapt) : a.f = f)
CompleteBases(tu, f) == \A k \in 1..Len(tu) : Relevant(tu, f, k) => \A j \in Ancestors(tu, k) : SerializableAnywhere(tu, f, j) => Relevant(tu, f, j)

\* ---- members ---------------------------------------------------------------------------------
Accessible(r, f, dir, m) == ~m.static /\ (m.acc = "public" \/ Helper(f, dir) \in Range(r.friends)) /\ (m.const => f = "json" /\ dir = "out")
Own(tu, f, dir, k) == LET Names == [i \in 1..Len(tu[k].members) |-> tu[k].members[i]]
                          Ok(m) == Accessible(tu[k], f, dir, m)
                          S == SelectSeq(Names, Ok)
                      IN [i \in 1..Len(S) |-> S[i].n]
RECURSIVE Members(_, _, _, _), MembersOfBases(_, _, _, _, _)
\* names of all members which are (de)serialized, in this order
Members(tu, f, dir, k) == MembersOfBases(tu, f, dir, RelevantBases(tu, f, k), 1) \o Own(tu, f, dir, k)
\* bases are taken in the order of their definition
MembersOfBases(tu, f, dir, B, j) ==
    IF j > Len(tu) THEN <<>>
    ELSE (IF j \in B THEN Members(tu, f, dir, j) ELSE <<>>) \o MembersOfBases(tu, f, dir, B, j + 1)
===============================================================================
