----------------------------- MODULE SessionBase -----------------------------
(* Trace validation of sessions: a line is a sequence of calls e.ev on one      *)
(* object, each with its observed outcome.  The specification state s is        *)
(* carried along; every call must be explained by an action of the              *)
(* specification: Step(e, s, v) is the set of states the specification allows   *)
(* after call v with the outcome observed (empty: not a behaviour).             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Step(_, _, _)

Trace == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Trace)
Batches == 64
VARIABLES ti, tl, ts, tph

TInit == ti \in 1..Batches /\ tl = 0 /\ ts = <<>> /\ tph = "batch"
Calls(e) == IF "k" \in DOMAIN e.out /\ e.out.k \in {"abort", "hang", "panic"} THEN <<>> ELSE e.out.ev
Pick == /\ tph = "batch"
        /\ \E j \in {x \in 1..N : x % Batches = ti % Batches} :
             /\ ti' = j
             /\ ts' = Start(Trace[j])
        /\ tph' = "run" /\ tl' = 0
Consume == /\ tph = "run" /\ tl < Len(Calls(Trace[ti]))
           /\ LET next == Step(Trace[ti], ts, Calls(Trace[ti])[tl + 1]) IN
                IF next = {} THEN /\ tph' = "reject" /\ UNCHANGED ts
                                  /\ PrintT(<<"VERDICT", ti, "reject">>)
                                  /\ PrintT(<<"AT", ti, tl + 1, ts>>)
                ELSE /\ tph' = "run" /\ ts' \in next
           /\ tl' = tl + 1 /\ UNCHANGED ti
Finish == /\ tph = "run" /\ tl = Len(Calls(Trace[ti]))
          /\ IF tl = Len(Trace[ti].ev) THEN tph' = "ok"
             ELSE tph' = "reject" /\ PrintT(<<"VERDICT", ti, "reject">>)
          /\ UNCHANGED <<ti, tl, ts>>
TNext == Pick \/ Consume \/ Finish
TSpec == TInit /\ [][TNext]_<<ti, tl, ts, tph>>
===============================================================================
