----------------------------- MODULE SmlGenFile ------------------------------
(***************************************************************************)
(* Files put together from messages whose meaning is known: intact, with a *)
(* wrong checksum, malformed; and zero bytes.  What a file means follows   *)
(* from what its pieces mean (C06); TLC checks that against the automaton  *)
(* for every file that is put together.                                    *)
(***************************************************************************)
EXTENDS SmlParser, Json, IOUtils

P == ndJsonDeserialize(IOEnv.PARAMS)[1]
Pieces == P.pieces      \* [w |-> bytes, c |-> class, t |-> tokens]
N == Len(Pieces)

VARIABLES ix,    \* the pieces so far
          rnd, done

vars == << ix, rnd, done >>

Rand(r) == (r * 75 + 74) % 65537

Init == \/ /\ P.mode = "all" /\ ix = << >> /\ rnd = 0 /\ done = FALSE
        \/ /\ P.mode = "rnd"
           /\ \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
           /\ ix = << >> /\ done = FALSE

RECURSIVE Draw(_, _, _)
Draw(s, n, r) == IF n = 0 THEN s ELSE Draw(Append(s, 1 + ((r \div 3) % N)), n - 1, Rand(Rand(r)))

Next == /\ ~done
        /\ IF P.mode = "rnd"
           THEN /\ ix' = Draw(<< >>, 1 + (Rand(rnd) % P.len), Rand(Rand(rnd + 5)))
                /\ done' = TRUE
           ELSE \/ /\ Len(ix) < P.len
                   /\ \E j \in 1..N : ix' = Append(ix, j)
                   /\ done' = FALSE
                \/ /\ ix # << >> /\ ix' = ix /\ done' = TRUE
        /\ UNCHANGED rnd

Spec == Init /\ [][Next]_vars

Wire == Concat([i \in 1..Len(ix) |-> Pieces[ix[i]].w])
FirstBad == IF \E i \in 1..Len(ix) : Pieces[ix[i]].c = "bad"
            THEN CHOOSE i \in 1..Len(ix) : Pieces[ix[i]].c = "bad"
                    /\ \A j \in 1..(i - 1) : Pieces[ix[j]].c # "bad"
            ELSE Len(ix) + 1
Expected == [msgs |-> LET good == SelectSeq(SubSeq(ix, 1, FirstBad - 1), LAMBDA j : Pieces[j].c = "ok")
                      IN  [i \in 1..Len(good) |-> Pieces[good[i]].t],
             err |-> FirstBad <= Len(ix)]

Composes == done => ParseFile(Wire, {}) = Expected

Emit == done => PrintT(ToJson([ix |-> ix]))
=============================================================================
