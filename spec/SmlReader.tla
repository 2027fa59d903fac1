------------------------------ MODULE SmlReader ------------------------------
(***************************************************************************)
(* The transport reader as it works: byte-wise search for a start          *)
(* sequence, then group-wise reading, on top of a kernel that hands over   *)
(* bytes in pieces of any size, interrupts, fails and ends.  Checked       *)
(* against the relation of SmlTransport for every stream, every            *)
(* fragmentation and every failure point within the bounds.                *)
(*                                                                         *)
(* G = 2 for model checking; the structure does not depend on G.           *)
(***************************************************************************)
EXTENDS SmlTransport

CONSTANTS BYTES,     \* alphabet of the environment
          LINE,      \* length of the longest stream
          MAXBUF,    \* lengths of the caller's buffer
          QUEUE      \* how many unread bytes the kernel may hold

VARIABLES
    line,    \* every byte that has arrived
    rd,      \* how many of them were read
    eof,     \* nothing more arrives
    pc,      \* "call", "search", "group", "esc", "stop"
    max,     \* the buffer of the current call
    len,     \* search: bytes of the start sequence matched; otherwise size of the frame so far
    part,    \* bytes of the current group that were read
    frame,   \* what is in the buffer
    p0,      \* position at which the current call started
    last,    \* the last call: [p, max, ret, bytes, p2]
    got,     \* number of frames delivered
    intr     \* interruptions of the current wait

vars == << line, rd, eof, pc, max, len, part, frame, p0, last, got, intr >>

NoCall == [p |-> 0, max |-> 0, ret |-> 0, bytes |-> << >>, p2 |-> 0, end |-> 0]

Init == /\ line = << >> /\ rd = 0 /\ eof = FALSE /\ pc = "call"
        /\ max \in MAXBUF /\ len = 0 /\ part = << >> /\ frame = << >>
        /\ p0 = 1 /\ last = NoCall /\ got = 0 /\ intr = 0

\* ---- environment

Arrive ==
    /\ ~eof /\ Len(line) < LINE /\ Len(line) - rd < QUEUE /\ pc # "stop"
    /\ \E b \in BYTES : line' = Append(line, b)
    /\ UNCHANGED << rd, eof, pc, max, len, part, frame, p0, last, got, intr >>

\* the end of the stream, or a failure of read
Close ==
    /\ ~eof /\ pc # "stop"
    /\ eof' = TRUE
    /\ UNCHANGED << line, rd, pc, max, len, part, frame, p0, last, got, intr >>

\* a signal: select or read return with EINTR or EAGAIN
Interrupt ==
    /\ pc \in {"search", "group", "esc"} /\ intr < 1
    /\ intr' = intr + 1
    /\ UNCHANGED << line, rd, eof, pc, max, len, part, frame, p0, last, got >>

\* ---- reader

Call ==
    /\ pc = "call"
    /\ len' = 0 /\ part' = << >> /\ frame' = << >> /\ p0' = rd + 1 /\ intr' = 0
    /\ IF max < 2 * G
       THEN pc' = "stop" /\ last' = [p |-> rd + 1, max |-> max, ret |-> 0, bytes |-> << >>,
                                     p2 |-> rd + 1, end |-> Len(line)]
       ELSE pc' = "search" /\ last' = last
    /\ UNCHANGED << line, rd, eof, max, got >>

Return(ret, n) ==
    /\ last' = [p |-> p0, max |-> max, ret |-> ret, bytes |-> IF ret = 0 THEN << >> ELSE frame',
                p2 |-> n + 1, end |-> Len(line)]
    /\ pc' = IF ret = 0 THEN "stop" ELSE "call"
    /\ got' = IF ret = 0 THEN got ELSE got + 1

\* the stream has ended, and the reader wants more
AtEnd ==
    /\ pc \in {"search", "group", "esc"} /\ eof /\ rd = Len(line)
    /\ frame' = frame
    /\ Return(0, rd)
    /\ UNCHANGED << line, rd, eof, max, len, part, p0, intr >>

\* length of the longest prefix of the start sequence that ends with this byte
Match(n, b) == IF b = Esc /\ n < G THEN n + 1
               ELSE IF b = One /\ n >= G THEN n + 1
               ELSE IF b = Esc THEN (IF n = G THEN G ELSE 1)
               ELSE 0

Search ==
    /\ pc = "search" /\ rd < Len(line)
    /\ LET b == line[rd + 1]
           m == Match(len, b)
       IN  /\ len' = m
           /\ rd' = rd + 1
           /\ IF m = 2 * G
              THEN /\ frame' = StartMark
                   \* room for an escape and the end?
                   /\ IF m + 2 * G <= max THEN pc' = "group" /\ UNCHANGED << last, got >>
                      ELSE Return(0, rd + 1)
              ELSE pc' = pc /\ UNCHANGED << frame, last, got >>
    /\ part' = << >> /\ intr' = 0
    /\ UNCHANGED << line, eof, max, p0 >>

\* read returns n bytes, of the ones that are there and wanted
Group ==
    /\ pc \in {"group", "esc"} /\ rd < Len(line)
    /\ \E n \in 1..Min2(G - Len(part), Len(line) - rd) :
         LET g == part \o SubSeq(line, rd + 1, rd + n)
         IN  /\ rd' = rd + n
             /\ IF Len(g) < G
                THEN part' = g /\ UNCHANGED << pc, len, frame, last, got >>
                ELSE /\ part' = << >>
                     /\ frame' = frame \o g
                     /\ len' = len + G
                     /\ IF pc = "esc"
                        THEN Return(IF g[1] = End THEN len + G ELSE 0, rd + n)
                        ELSE IF g = EscGroup THEN pc' = "esc" /\ UNCHANGED << last, got >>
                        ELSE IF len + G + 2 * G <= max THEN pc' = "group" /\ UNCHANGED << last, got >>
                        ELSE Return(0, rd + n)
    /\ intr' = 0
    /\ UNCHANGED << line, eof, max, p0 >>

Reader == Call \/ AtEnd \/ Search \/ Group
Next == Arrive \/ Close \/ Interrupt \/ Reader

Spec == Init /\ [][Next]_vars /\ WF_vars(Reader) /\ WF_vars(Close)

----------------------------------------------------------------------------

\* C01, C02, C03: whatever arrived in whichever pieces, each call returned what
\* the stream alone determines
CallsRight ==
    last # NoCall =>
        ReadOk(line, last.end, last.p, last.max, last.ret, last.bytes, last.p2)

\* C03
NeverTooLong == Len(frame) <= Max2(max, 0) /\ rd <= Len(line)

\* C03: a frame is a piece of the line, and its last byte was the last one read
FrameIsRead == (pc = "call" /\ got > 0) =>
                  /\ frame = SubSeq(line, rd - Len(frame) + 1, rd)
                  /\ IsPrefix(StartMark, frame)

\* the reader comes to an end when the stream does
Ends == <>(pc = "stop")
=============================================================================
