----------------------------- MODULE JsonConcurrentMC -----------------------------
(* Several deserializations at the same time, each one being a JsonMachine. In one   *)
(* step one of them does a step (Grain "micro") or continues until the next member   *)
(* with custom code (Grain "macro", the points where the real library can be made to *)
(* continue with another operation). The schedules of the latter are exported and    *)
(* replayed into the real library.                                                   *)
(* Leak: part of the state the machines share by mistake ("none" for the library as  *)
(* it is specified; with anything else NonInterference has to be refuted).           *)
EXTENDS JsonMachine, Json

CONSTANTS Jobs,         \* sequence of sequences of [ty, d, we, thr]
          Grain, Leak
VARIABLES job, ss, sched
vars == <<job, ss, sched>>

Schema == JsonDeserialize("schema.json")
StructsIn == Schema.structs
DefaultsIn == Schema.defaults
JobsIn == Schema.jobs

W == 1..Len(ss)
Opt(j) == [we |-> j.we, thr |-> j.thr]
Start(j) == Machine(j.ty, j.d, Default(j.ty), Opt(j))
Init == LET all == Jobs IN job \in 1..Len(all) /\ ss = [w \in 1..Len(all[job]) |-> Start(all[job][w])] /\ sched = <<>>

AtProbe(s) == ~Done(s) /\ s.st.x = "none" /\ Top(s).f = "value" /\ Top(s).ty.k = "probe"
RECURSIVE Run(_)
Run(s) == IF Done(s) \/ AtProbe(s) THEN s ELSE Run(Step(s))
Move(s) == IF Grain = "micro" THEN Step(s) ELSE IF AtProbe(s) THEN Run(Step(s)) ELSE Run(s)
\* s after another machine has become n
Shared(s, n) ==
    CASE Leak = "none" -> s
      [] Leak = "context" -> [s EXCEPT !.st.r = n.st.r, !.st.m = n.st.m, !.st.i = n.st.i]
      [] Leak = "errors" -> [s EXCEPT !.st.errs = n.st.errs]
      [] Leak = "result" -> [s EXCEPT !.ret = n.ret]
      [] Leak = "stack" -> IF Done(s) \/ Done(n) THEN s ELSE [s EXCEPT !.stk = n.stk]
Work(w) ==
    LET n == Move(ss[w]) IN
    /\ ~Done(ss[w])
    /\ ss' = [v \in W |-> IF v = w THEN n ELSE Shared(ss[v], n)]
    /\ sched' = IF Grain = "micro" THEN sched ELSE Append(sched, w)
    /\ UNCHANGED job
Next == \E w \in W : Work(w)
Spec == Init /\ [][Next]_vars /\ \A w \in 1..3 : WF_vars(w \in W /\ Work(w))

\* ---- properties ----------------------------------------------------------------------------------------------------
\* each operation ends like it does alone
NonInterference == \A w \in W : Done(ss[w]) =>
    LET j == Jobs[job][w]
        r == Pull(j.ty, j.d, Default(j.ty), InitState, Opt(j))
    IN /\ r.st.errs = ss[w].st.errs /\ r.st.x = ss[w].st.x /\ r.st.pr = ss[w].st.pr
       /\ ss[w].st.x = "none" => r.v = ss[w].ret /\ r.st = ss[w].st
\* what one operation goes through is a behaviour of the machine alone
Isolated == [][Grain = "micro" => \E w \in W : ~Done(ss[w]) /\ ss'[w] = Step(ss[w]) /\ \A v \in W \ {w} : ss'[v] = ss[v]]_vars
AllDone == \A w \in W : Done(ss[w])
Terminates == <>AllDone

\* ---- export ----------------------------------------------------------------------------------------------------------
\* operations can be nested (within custom code) if there is no a .. b .. a .. b
Nested == \A a, b \in W : a = b \/ ~\E i, j, k, l \in 1..Len(sched) : i < j /\ j < k /\ k < l /\ sched[i] = a /\ sched[j] = b /\ sched[k] = a /\ sched[l] = b
Export == (Grain = "macro" /\ AllDone) => PrintT("SCHED " \o ToJson([job |-> job, sched |-> sched, nested |-> Nested]))
===============================================================================
