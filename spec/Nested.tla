----------------------------------- MODULE Nested -----------------------------------
(* Objects and documents of observations which are nested too deep for being read from *)
(* JSON at once: nodes [t |-> "@", i |-> k] stand for the k-th one of a table.          *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

RECURSIVE Expand(_, _)
Expand(v, tab) ==
    LET sub(s) == [k \in 1..Len(s) |-> Expand(s[k], tab)]
        vals(s) == [k \in 1..Len(s) |-> [s[k] EXCEPT !.v = Expand(@, tab)]]
    IN CASE v.t = "@" -> Expand(tab[v.i], tab)
         [] v.t = "rec" -> [v EXCEPT !.f = vals(@)]
         [] v.t \in {"some", "ref", "var"} /\ "v" \in DOMAIN v -> [v EXCEPT !.v = Expand(@, tab)]
         [] v.t \in {"seq", "set", "tup", "arr"} -> [v EXCEPT !.e = sub(@)]
         [] v.t = "map" -> [v EXCEPT !.e = vals(@)]
         [] v.t = "obj" -> [v EXCEPT !.m = vals(@)]
         [] OTHER -> v
Restored(o) == IF "tab" \in DOMAIN o
               THEN [n \in DOMAIN o \ {"tab"} |-> IF n \in {"val", "val2", "val3", "res", "cur2", "d"} THEN Expand(o[n], o.tab) ELSE o[n]]
               ELSE o
======================================================================================
