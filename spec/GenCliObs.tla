----------------------------------- MODULE GenCliObs ----------------------------------
(* Decides observed calls of the real code generator. code: sections found within the    *)
(* output ("?" for anything else), len: size of the complete code, logged: options       *)
(* stated on stderr, other: output on the stream which has not been requested            *)
EXTENDS GenCli, TLC, Json, SequencesExt
VARIABLES o, phase
Accept ==
    LET c == o.call IN
    /\ o.exit \in {0, 1}
    /\ (o.exit = 0) = MustSucceed(c, o.len)
    /\ o.exit = 1 => o.msg
    /\ o.exit = 0 /\ c.out # "full" => o.code = Code(c)
    /\ ~o.other
    /\ c.log /\ c.out # "unopenable" => o.logged = Options(c)
Init == o \in ToSet(ndJsonDeserialize("obs.ndjson")) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED o
Accepted == phase = 0 \/ Accept \/ (PrintT(<<"REJECT", o.num, IF MustSucceed(o.call, o.len) THEN Code(o.call) ELSE "fails">>) /\ FALSE)
=======================================================================================
