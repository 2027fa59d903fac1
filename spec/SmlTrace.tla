------------------------------ MODULE SmlTrace -------------------------------
(***************************************************************************)
(* Acceptance of recorded executions.  A case is a sequence of operations  *)
(* of one process (or one thread) with their recorded results; it is       *)
(* accepted iff it is a behaviour of SmlApi from the initial state, under  *)
(* one reading z of the boundary cases.  One initial state per case, one   *)
(* step per operation.                                                     *)
(***************************************************************************)
EXTENDS SmlApi, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

Readings == << {}, {"o"}, {"n"}, {"w"}, {"o", "n"}, {"o", "w"}, {"n", "w"}, {"o", "n", "w"} >>

VARIABLES c,     \* case
          i,     \* next operation
          zi,    \* index of the reading
          far,   \* furthest operation that was reached under any reading
          st,    \* abstract state
          res    \* "run", "ok" or "rejected"

vars == << c, i, zi, far, st, res >>

Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ zi = 1 /\ far = 1 /\ st = InitState /\ res = "run"

Ops == Cases[c].ops

Accept ==
    /\ st' = After(Ops[i], Ops[i].r, st, Readings[zi])
    /\ i' = i + 1
    /\ UNCHANGED << c, zi, far, res >>

OtherReading ==
    /\ far' = IF i > far THEN i ELSE far
    /\ UNCHANGED c
    /\ IF zi < Len(Readings)
       THEN zi' = zi + 1 /\ i' = 1 /\ st' = InitState /\ res' = "run"
       ELSE /\ zi' = zi /\ i' = i /\ st' = st /\ res' = "rejected"
            /\ PrintT("@REJECT " \o ToString(Cases[c].id) \o " " \o ToString(far'))

Operation ==
    /\ res = "run" /\ i <= Len(Ops)
    /\ IF Allowed(Ops[i], Ops[i].r, st, Readings[zi]) THEN Accept ELSE OtherReading

Finish ==
    /\ res = "run" /\ i = Len(Ops) + 1
    /\ res' = "ok"
    /\ UNCHANGED << c, i, zi, far, st >>

Next == Operation \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
