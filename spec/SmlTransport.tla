---------------------------- MODULE SmlTransport -----------------------------
(***************************************************************************)
(* SML transport version 1, as a relation between a byte stream and the    *)
(* frames it contains.  G is the group size: 4 on the wire; the model      *)
(* checker also runs it with 2, where every stream of a useful length can  *)
(* be enumerated.  ReaderMachine.tla is the reader that has to agree.      *)
(***************************************************************************)
EXTENDS SmlBase

CONSTANTS G,          \* group size
          Esc, One,   \* the bytes 1b and 01
          End         \* the byte 1a

EscGroup == Rep(G, Esc)
StartMark == EscGroup \o Rep(G, One)

\* s from position p on starts with m; e is the last position that can be read
At(s, e, p, m) == p + Len(m) - 1 <= e /\ SubSeq(s, p, p + Len(m) - 1) = m

\* position of the first start sequence at or behind p, 0 if there is none
FirstStart(s, e, p) == FirstOf(LAMBDA i : s[i] = Esc /\ At(s, e, i, StartMark), p, e - 2 * G + 1, 1)

\* position of the first aligned escape group at or behind p, 0 if there is none
FirstEsc(s, e, p) == FirstOf(LAMBDA i : s[i] = Esc /\ At(s, e, i, EscGroup), p, e - G + 1, G)

(* What a read that starts at position p finds, if position e is the last  *)
(* one that arrives before the stream ends or fails.                       *)
(*   kind  "frame"  a complete frame, from q to z                          *)
(*         "escape" the frame at q has an unknown escape, which ends at z  *)
(*         "open"   the stream ends first; q = 0: no frame has started     *)
Find(s, e, p) ==
    LET q == FirstStart(s, e, p)
        k == IF q = 0 THEN 0 ELSE FirstEsc(s, e, q + 2 * G)
    IN  IF q = 0 \/ k = 0 \/ k + 2 * G - 1 > e
        THEN [kind |-> "open", q |-> q, z |-> e]
        ELSE [kind |-> IF s[k + G] = End THEN "frame" ELSE "escape",
              q |-> q, z |-> k + 2 * G - 1]

Size(f) == f.z - f.q + 1

\* Does a read into a buffer of max bytes deliver the frame f
Delivers(f, max) == f.kind = "frame" /\ Size(f) <= max

(* The results that are right for a read: ret bytes were returned, the     *)
(* position of the next byte of the stream is p2.                          *)
ReadOk(s, e, p, max, ret, bytes, p2) ==
    LET f == Find(s, e, p)
    IN  IF max < 2 * G THEN ret = 0 /\ p2 \in p..(e + 1)
        ELSE IF Delivers(f, max)
             THEN ret = Size(f) /\ bytes = SubSeq(s, f.q, f.z) /\ p2 = f.z + 1
        ELSE /\ ret = 0
             /\ IF f.q = 0 THEN p2 = e + 1                  \* nothing but noise
                \* otherwise the frame is broken, or it is too long; the reader gives
                \* up where it notices, at the latest at the end of what it can keep
                ELSE p2 \in (f.q + 2 * G)..Min2(f.q + max, f.z + 1)

\* all frames that listening with a buffer of max bytes delivers
RECURSIVE Frames(_, _, _, _)
Frames(s, e, p, max) ==
    LET f == Find(s, e, p)
    IN  IF Delivers(f, max)
        THEN << SubSeq(s, f.q, f.z) >> \o Frames(s, e, f.z + 1, max)
        ELSE << >>

(* A line behind which a reader is where it started: no frame has begun,   *)
(* and no byte at its end can belong to a start sequence.  What such a     *)
(* line delivers, it delivers each time it is repeated, and what follows   *)
(* is read as if it came first (SmlGenLine!Repeats).                       *)
RECURSIVE Idle(_, _, _)
Idle(s, p, max) ==
    LET f == Find(s, Len(s), p)
    IN  IF Delivers(f, max) THEN Idle(s, f.z + 1, max)
        ELSE /\ f.q = 0
             /\ p > Len(s) \/ s[Len(s)] \notin {Esc, One}
=============================================================================
