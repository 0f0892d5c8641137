---------------------------------- MODULE DocLife ----------------------------------
(* Life of an object and of a JSON document which was populated from it. The object    *)
(* has cells (the characters of its strings, keys, views and numbers); each leaf of   *)
(* the document holds a copy or - what must not happen - refers to a cell. Serializing *)
(* the document must always give what the object was when the document was populated.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Leaves,       \* kinds of leaves: "str", "key", "view", "num"
          Borrowed,     \* leaves of the document which refer to the object instead of holding a copy ({} is what is promised)
          MaxSteps
VARIABLES obj, doc, written, hist

\* content of a cell; a cell which has been freed must not be read
Orig == "orig"
Mut == "mutated"
Clr == "cleared"
Freed == "freed"
Init == obj = [l \in Leaves |-> Orig] /\ doc = [l \in Leaves |-> IF l \in Borrowed THEN "ref" ELSE Orig] /\ written = <<>> /\ hist = <<>>

Alive == \A l \in Leaves : obj[l] # Freed
Do(a) == hist' = Append(hist, a)
Mutate == Alive /\ obj' = [l \in Leaves |-> Mut] /\ Do("mutate") /\ UNCHANGED <<doc, written>>
Clear == Alive /\ obj' = [l \in Leaves |-> Clr] /\ Do("clear") /\ UNCHANGED <<doc, written>>
Destroy == Alive /\ obj' = [l \in Leaves |-> Freed] /\ Do("destroy") /\ UNCHANGED <<doc, written>>
Write == written' = Append(written, [l \in Leaves |-> IF doc[l] = "ref" THEN obj[l] ELSE doc[l]]) /\ Do("write") /\ UNCHANGED <<obj, doc>>
Next == Len(hist) < MaxSteps /\ (Mutate \/ Clear \/ Destroy \/ Write)

Owned == \A k \in 1..Len(written) : \A l \in Leaves : written[k][l] = Orig
\* collects the histories worth replaying: those which end with serializing the document
Collect == IF hist # <<>> /\ hist[Len(hist)] = "write" THEN TLCSet(1, Append(TLCGet(1), [h |-> hist])) ELSE TRUE
InitCollect == Init /\ TLCSet(1, <<>>)
Export == ndJsonSerialize("hist.ndjson", TLCGet(1))
===============================================================================
