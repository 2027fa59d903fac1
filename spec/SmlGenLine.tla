----------------------------- MODULE SmlGenLine ------------------------------
(***************************************************************************)
(* Lines with SML transport version 1 on them: frames, noise, broken and   *)
(* truncated frames in any order, and what the operating system does on    *)
(* the way.  TLC checks that the reader, run as a function with the group  *)
(* size of the wire, finds on every line what SmlTransport says (see       *)
(* SmlReader for the reader under every schedule, at a smaller group       *)
(* size); the lines are then replayed into the code.                       *)
(***************************************************************************)
EXTENDS SmlBase, Json, IOUtils

T == INSTANCE SmlTransport WITH G <- 4, Esc <- 27, One <- 1, End <- 26

P == ndJsonDeserialize(IOEnv.PARAMS)[1]

E4 == << 27, 27, 27, 27 >>
O4 == << 1, 1, 1, 1 >>
S8 == E4 \o O4
F(payload) == S8 \o payload \o E4 \o << 26, 0, 18, 52 >>

Noise == <<
    << 27 >>, << 1 >>, << 0 >>, << 26 >>,
    << 27, 27 >>, << 27, 27, 27 >>, E4, << 27, 27, 27, 27, 27 >>, Rep(9, 27),
    E4 \o << 1 >>, E4 \o << 1, 1, 1 >>, E4 \o << 1, 1, 1, 27 >>, E4 \o << 1, 1, 27, 27 >>,
    E4 \o << 1, 1, 1, 2 >>, E4 \o << 0 >>, O4, << 27, 1, 27, 1 >>, << 27, 27, 27, 1, 1, 1, 1 >>,
    E4 \o << 26, 0, 18, 52 >>, << 47, 33, 13, 10 >>, E4 \o << 27, 27, 1, 1 >> >>

Whole == <<
    F(<< >>), F(<< 118, 5, 1, 2 >>), F(<< 0, 27, 27, 27, 27, 0, 0, 0 >>), F(<< 0, 0, 27, 27, 27, 27, 1, 1, 1, 1, 0, 0 >>),
    F(<< 27, 27, 27, 0, 0, 27, 27, 27 >>), F(<< 26, 26, 26, 26 >>), F(O4),
    S8 \o << 1, 2, 3, 4 >> \o E4 \o << 26, 255, 255, 255 >>,
    S8 \o << 1, 27, 27, 27 >> \o E4 \o << 26, 27, 27, 27 >>,
    S8 \o << 5, 6, 7, 8 >> \o E4 \o << 26, 3, 1, 1 >>,
    F(Rep(24, 7)) >>

Broken == <<
    S8, S8 \o << 1 >>, S8 \o << 1, 2, 3 >>, S8 \o << 1, 2, 3, 4 >>, S8 \o E4, S8 \o E4 \o << 26 >>,
    S8 \o E4 \o << 26, 0, 0 >>,
    S8 \o E4 \o << 2, 0, 0, 0 >>, S8 \o << 1, 2, 3, 4 >> \o E4 \o O4, S8 \o E4 \o E4,
    S8 \o E4 \o << 0, 26, 0, 0 >>, S8 \o << 9, 9, 9, 9 >> \o E4 \o << 27, 27, 27, 26 >>,
    S8 \o Rep(40, 3) >>

Pieces == CASE P.set = "noise" -> Noise
            [] P.set = "whole" -> Whole
            [] P.set = "good" -> Noise \o Whole
            [] P.set = "all" -> Noise \o Whole \o Broken
            [] P.set = "bytes" -> << << 27 >>, << 1 >>, << 0 >> >>
N == Len(Pieces)
Tails == CASE P.last = "none" -> << << >> >>
          [] P.last = "frame" -> << F(<< 118, 5, 1, 2 >>) \o << 27 >> >>
          [] P.last = "two" -> << F(<< 118, 5, 1, 2 >>) \o F(<< 1, 2, 3, 4 >>) >>


VARIABLES ix, line, ev, max, rnd, done
vars == << ix, line, ev, max, rnd, done >>

Rand(r) == (r * 75 + 74) % 65537

Init == /\ ix = << >> /\ line = << >> /\ ev = << >> /\ done = FALSE
        /\ IF P.mode = "all" THEN rnd = 0 /\ max \in ToSet(P.max)
           ELSE /\ \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
                /\ max = P.max[1 + ((rnd \div 7) % Len(P.max))]

RECURSIVE Draw(_, _, _)
Draw(s, n, r) == IF n = 0 THEN s ELSE Draw(Append(s, 1 + ((r \div 3) % N)), n - 1, Rand(Rand(r)))

LineOf(x) == Concat([i \in 1..Len(x) |-> Pieces[x[i]]])

\* soft events: the bytes arrive in pieces, reads and waits are interrupted
Soft == << 0, 0, 0, 1, 2, 5 >>
RECURSIVE Events(_, _, _)
Events(n, len, r) ==
    IF n = 0 THEN << >>
    ELSE LET r1 == Rand(r) r2 == Rand(r1) r3 == Rand(r2)
         IN  << << r1 % (len + 1), Soft[1 + ((r2 \div 3) % 6)], 1 + ((r3 \div 5) % 3) >> >> \o Events(n - 1, len, r3)

\* a failure or the end of the stream, once, somewhere
HardEvent(len, r) == << << Rand(r) % (len + 1), 3 + ((r \div 11) % 2), 1 >> >>

Finish(x, r) ==
    /\ ix' = x
    /\ \E l \in ToSet(Tails) :
         LET w == LineOf(x) \o l
         IN  /\ line' = w
             /\ IF P.events = 0 /\ P.hard = 0 THEN ev' = << >>
                ELSE ev' = Events((r \div 3) % (P.events + 1), Len(w), Rand(r))
                           \o IF P.hard = 1 THEN HardEvent(Len(w), Rand(Rand(r))) ELSE << >>
    /\ done' = TRUE

Next == /\ ~done
        /\ IF P.mode = "rnd"
           THEN Finish(Draw(<< >>, 1 + (Rand(rnd) % P.len), Rand(Rand(rnd + 5))), Rand(rnd + 9))
           ELSE \/ /\ Len(ix) < P.len
                   /\ \E j \in 1..N : ix' = Append(ix, j)
                   /\ UNCHANGED << line, ev, done >>
                \/ Finish(ix, 1)
        /\ UNCHANGED << rnd, max >>

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The reader as a function: bytes of the start sequence matched so far,   *)
(* then groups.                                                            *)

Match(n, b) == IF b = 27 /\ n < 4 THEN n + 1
               ELSE IF b = 1 /\ n >= 4 THEN n + 1
               ELSE IF b = 27 THEN (IF n = 4 THEN 4 ELSE 1)
               ELSE 0

RECURSIVE SearchAt(_, _, _)
SearchAt(s, n, p) == IF n = 8 THEN p ELSE IF p > Len(s) THEN 0 ELSE SearchAt(s, Match(n, s[p]), p + 1)

\* groups from p on; size bytes are in the buffer
RECURSIVE GroupsAt(_, _, _, _)
GroupsAt(s, p, size, m) ==
    IF size + 8 > m THEN [ret |-> 0, p2 |-> p]
    ELSE IF p + 3 > Len(s) THEN [ret |-> 0, p2 |-> Len(s) + 1]
    ELSE IF SubSeq(s, p, p + 3) # E4 THEN GroupsAt(s, p + 4, size + 4, m)
    ELSE IF p + 7 > Len(s) THEN [ret |-> 0, p2 |-> Len(s) + 1]
    ELSE [ret |-> IF s[p + 4] = 26 THEN size + 8 ELSE 0, p2 |-> p + 8]

ReadAt(s, p, m) ==
    IF m < 8 THEN [ret |-> 0, p2 |-> p]
    ELSE LET q == SearchAt(s, 0, p)
         IN  IF q = 0 THEN [ret |-> 0, p2 |-> Len(s) + 1] ELSE GroupsAt(s, q, 8, m)

RECURSIVE AllReads(_, _, _)
AllReads(s, p, m) ==
    LET r == ReadAt(s, p, m)
        bytes == IF r.ret = 0 THEN << >> ELSE SubSeq(s, r.p2 - r.ret, r.p2 - 1)
    IN  /\ T!ReadOk(s, Len(s), p, m, r.ret, bytes, r.p2)
        /\ (r.ret > 0 => AllReads(s, r.p2, m))

ReaderAgrees == done => AllReads(line, 1, max)

\* what is not a frame does not hide the frames behind it, as long as it contains no start
NoiseIsHarmless ==
    (done /\ P.set \in {"noise", "bytes"} /\ P.last # "none" /\ max >= 40) =>
      LET n == Len(line) - (IF P.last = "frame" THEN 21 ELSE 40)
          clean == T!FirstStart(line, n + 7, 1) = 0
      IN  clean => /\ T!Frames(line, Len(line), 1, 40) # << >>
                   /\ T!Frames(line, Len(line), 1, 40)[1] = F(<< 118, 5, 1, 2 >>)

\* a line that ends where it began says the same each time, and does not change what follows
AllFrames(s) == T!Frames(s, Len(s), 1, max)
Repeats ==
    (done /\ T!Idle(line, 1, max)) =>
      LET f == AllFrames(line)
      IN  /\ AllFrames(line \o line) = f \o f
          /\ \A t \in ToSet(Tails) \cup {<< >>, E4 \o O4, << 27, 1 >> \o F(<< >>)} :
               AllFrames(line \o line \o t) = f \o f \o AllFrames(t)

Emit == done => PrintT(ToJson([line |-> line, ev |-> ev, max |-> max, ix |-> ix]))
=============================================================================
