------------------------------ MODULE TraceBase ------------------------------
(* Trace validation.  EVENTS names an ndjson file recorded from the real code; *)
(* every line is one behaviour: either a single call ("out" is its observed    *)
(* outcome) or a session (field "ev", a sequence of calls with the projected   *)
(* state after each).  TLC explores                                            *)
(*   pick a batch -> pick a line -> judge it                                   *)
(* with all workers, and every line ends in exactly one verdict:               *)
(*   ok, known (a named deviation listed in the known-findings file), reject.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Accept(_),    \* the line is a behaviour of the specification
          Deviation(_)  \* else: name of the deviation action it matches, or ""

Trace == ndJsonDeserialize(IOEnv.EVENTS)
N == Len(Trace)
Batches == 64
VARIABLES ti, tph

\* the memory (bytes) a decoder had in use at most: bounded by what is there, not by
\* what a length prefix claims (the meter stops at 2^30)
MemOK(mem, n) == n >= 100000 \/ mem <= 1048576 + 8192 * n

TInit == ti \in 1..Batches /\ tph = "batch"
Crashed(e) == "k" \in DOMAIN e.out /\ e.out.k \in {"abort", "hang", "panic"}
Judge(e) == IF ~Crashed(e) /\ Accept(e) THEN "ok"
            ELSE IF Deviation(e) # "" THEN Deviation(e)
            ELSE "reject"
TNext ==
  \/ /\ tph = "batch"
     /\ \E j \in {x \in 1..N : x % Batches = ti % Batches} : ti' = j
     /\ tph' = "line"
  \/ /\ tph = "line"
     /\ tph' = Judge(Trace[ti])
     /\ tph' # "ok" => PrintT(<<"VERDICT", ti, tph'>>)
     /\ UNCHANGED ti
TSpec == TInit /\ [][TNext]_<<ti, tph>>
===============================================================================
