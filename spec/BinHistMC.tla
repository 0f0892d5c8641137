-------------------------------- MODULE BinHistMC --------------------------------
(* A program creates, links, drops and writes objects referred to by shared pointers   *)
(* while using the same serializer. Objects live in slots (addresses) which are used   *)
(* again as soon as an object is gone; addresses identify objects within the stream.   *)
(* Retain = FALSE models a serializer which does not keep the objects it has written    *)
(* alive: then Faithful is violated because an address might denote another object.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSlots, NVars, Retain, MaxWrites, MaxLen

VARIABLES heap,     \* slot -> [inc, next] or NoObj (inc: number of the object, next: slot or 0)
          var,      \* variable -> slot or 0
          seen,     \* slots the serializer knows
          kept,     \* slots the serializer keeps alive
          count,    \* number of objects created so far
          table,    \* reader: slot -> object
          robj,     \* reader: object -> [inc of the object it has been made from, next (object or 0)]
          got,      \* reads: [want (object written), got (object made)]
          hist
vars == <<heap, var, seen, kept, count, table, robj, got, hist>>
View == <<heap, var, seen, kept, table, robj, got, Len(hist)>>

Slots == 1..NSlots
VarsOf == 1..NVars
NoObj == [inc |-> 0, next |-> 0]
\* ---- lifetime: an object exists as long as a variable, an existing object or the serializer refers to it -----------
Referred(h, v, k, s) == \/ \E x \in VarsOf : v[x] = s
                        \/ s \in k
                        \/ \E t \in Slots : h[t].inc # 0 /\ h[t].next = s
RECURSIVE Sweep(_, _, _)
Sweep(h, v, k) == LET dead == {s \in Slots : h[s].inc # 0 /\ ~Referred(h, v, k, s)} IN
                  IF dead = {} THEN h ELSE Sweep([s \in Slots |-> IF s \in dead THEN NoObj ELSE h[s]], v, k)
FreeSlot(h) == CHOOSE s \in Slots : h[s].inc = 0 /\ \A t \in 1..(s - 1) : h[t].inc # 0
Log(e) == hist' = Append(hist, e)
Step(a, v, w) == [a |-> a, v |-> v, w |-> w]

Init == /\ heap = [s \in Slots |-> NoObj] /\ var = [v \in VarsOf |-> 0] /\ seen = {} /\ kept = {} /\ count = 0
        /\ table = [s \in Slots |-> 0] /\ robj = <<>> /\ got = <<>> /\ hist = <<>>
\* v = make_shared()
New(v) == LET v1 == [var EXCEPT ![v] = 0]
              h1 == Sweep(heap, v1, kept) IN
          /\ \E s \in Slots : h1[s].inc = 0
          /\ LET s == FreeSlot(h1) IN
             /\ heap' = [h1 EXCEPT ![s] = [inc |-> count + 1, next |-> 0]]
             /\ var' = [v1 EXCEPT ![v] = s]
          /\ count' = count + 1 /\ Log(Step("new", v, 0)) /\ UNCHANGED <<seen, kept, table, robj, got>>
\* v->next = w
Link(v, w) == /\ var[v] # 0 /\ heap[var[v]].next # var[w]
              /\ heap' = Sweep([heap EXCEPT ![var[v]].next = var[w]], var, kept)
              /\ Log(Step("link", v, w)) /\ UNCHANGED <<var, seen, kept, count, table, robj, got>>
\* v = w
Copy(v, w) == /\ var[v] # var[w] /\ var[w] # 0
              /\ var' = [var EXCEPT ![v] = var[w]] /\ heap' = Sweep(heap, var', kept)
              /\ Log(Step("copy", v, w)) /\ UNCHANGED <<seen, kept, count, table, robj, got>>
\* v = nullptr
Drop(v) == /\ var[v] # 0
           /\ var' = [var EXCEPT ![v] = 0] /\ heap' = Sweep(heap, var', kept)
           /\ Log(Step("drop", v, 0)) /\ UNCHANGED <<seen, kept, count, table, robj, got>>
\* serializer.write(v) followed by deserializer.read(): the reader knows slots only
RECURSIVE Transfer(_, _)
\* st: seen, kept, table, robj
Transfer(s, st) ==
    IF s = 0 THEN [obj |-> 0, st |-> st]
    ELSE IF s \in st.seen THEN [obj |-> st.table[s], st |-> st]
    ELSE LET o == Len(st.robj) + 1
             s1 == [seen |-> st.seen \cup {s}, kept |-> IF Retain THEN st.kept \cup {s} ELSE st.kept,
                    table |-> [st.table EXCEPT ![s] = o], robj |-> Append(st.robj, [inc |-> heap[s].inc, next |-> 0])]
             r == Transfer(heap[s].next, s1)
         IN [obj |-> o, st |-> [r.st EXCEPT !.robj[o].next = r.obj]]
Write(v) == /\ Len(got) < MaxWrites /\ var[v] # 0
            /\ LET r == Transfer(var[v], [seen |-> seen, kept |-> kept, table |-> table, robj |-> robj]) IN
               /\ seen' = r.st.seen /\ kept' = r.st.kept /\ table' = r.st.table /\ robj' = r.st.robj
               /\ got' = Append(got, [want |-> heap[var[v]].inc, got |-> r.obj])
            /\ Log(Step("write", v, 0)) /\ UNCHANGED <<heap, var, count>>
\* another serializer (and deserializer): everything is forgotten
NewSer == /\ seen # {}
          /\ seen' = {} /\ kept' = {} /\ heap' = Sweep(heap, var, {})
          /\ table' = [s \in Slots |-> 0] /\ robj' = <<>> /\ got' = <<>>
          /\ Log(Step("newser", 0, 0)) /\ UNCHANGED <<var, count>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E v \in VarsOf : New(v) \/ Drop(v) \/ Write(v) \/ (\E w \in VarsOf : Link(v, w) \/ (v # w /\ Copy(v, w)))
           \/ NewSer
\* an object read is made from the object written, and from no other one
Faithful == \A k \in 1..Len(got) : robj[got[k].got].inc = got[k].want
\* objects written are the same object exactly if the objects read are
Identity == \A j, k \in 1..Len(got) : (got[j].want = got[k].want) = (got[j].got = got[k].got)
\* memory of objects known to the serializer is never used for another object
NoDangling == Retain => \A s \in seen : heap[s].inc # 0
Shared == \A j, k \in 1..Len(robj) : robj[j].inc = robj[k].inc => j = k
Emit == (Len(hist) > 0 /\ hist[Len(hist)].a = "write") => PrintT("HIST" \o ToJson(hist))
===============================================================================
