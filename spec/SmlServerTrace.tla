--------------------------- MODULE SmlServerTrace ---------------------------
(***************************************************************************)
(* Acceptance of recorded runs of sml_server.  A run: the arguments, the   *)
(* names that exist, the bytes on standard input and in the device, the    *)
(* lines that were printed, rest: what was printed behind the last end of  *)
(* line, and how the program ended.  Also, where that was looked at: how   *)
(* many lines were there when only a part of the stream had been sent, and *)
(* how the line was set up.  One step per frame.                           *)
(***************************************************************************)
EXTENDS SmlServer, SmlCommand, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

Readings == << {}, {"o"}, {"n"}, {"w"}, {"o", "n"}, {"o", "w"}, {"n", "w"}, {"o", "n", "w"} >>

BufSize == 8096

VARIABLES c,     \* run
          p,     \* position of the next byte of the stream
          i,     \* next line of the output
          res    \* "run", "lost", "end", "ok" or "rejected"

vars == << c, p, i, res >>

Init == c \in 1..Len(Runs) /\ p = 1 /\ i = 1 /\ res = "start"

R == Runs[c]
Out == R.out
Run == Outcome(R.args, Range(R.exist))
In == IF Run.dev = << Dash >> THEN R.in ELSE R.file

Reject == /\ res' = "rejected" /\ UNCHANGED << c, p, i >>
          /\ PrintT("@REJECT " \o ToString(R.id) \o " " \o ToString(i))

Printed(lines) == /\ Len(lines) <= Len(Out) - i + 1
                  /\ \A j \in 1..Len(lines) : LineOk(lines[j], Out[i + j - 1])

\* the defects that are recorded: R.known lists the keys
KnownLine(l, t) == LineOk(l, t) \/ ("false-boolean" \in Range(R.known) /\ l.alt # << >> /\ t = l.alt)
KnownPrinted(lines) == /\ Len(lines) <= Len(Out) - i + 1
                       /\ \A j \in 1..Len(lines) : KnownLine(lines[j], Out[i + j - 1])
Note(key) == PrintT("@KNOWN " \o ToString(R.id) \o " " \o key)

\* The program ends at the first entry without a complete name.  What it printed since it
\* last emptied its buffer is lost: the output is too short, and from there on ("lost")
\* there has to be such an entry.
Cut(marks) == \E j \in 1..Len(marks) : marks[j].k = "void"
Upto(marks) == IF ~Cut(marks) THEN marks
               ELSE SubSeq(marks, 1, (CHOOSE j \in 1..Len(marks) : marks[j].k = "void" /\ \A x \in 1..(j - 1) : marks[x].k # "void") - 1)
MayDie == "short-name" \in Range(R.known) /\ R.status \notin {0, -999}
EndsIn(marks) == LET l == Upto(marks)
                 IN  /\ Len(Out) - i + 1 <= Len(l)
                     /\ \A j \in i..Len(Out) : KnownLine(l[j - i + 1], Out[j])

Continue(f, r) == /\ i' = i + Len(r.lines)
                  /\ p' = f.z + 1
                  /\ res' = IF r.stop THEN "end" ELSE "run"
                  /\ c' = c

HandleFrame(f, frame) ==
    LET FR(z) == FrameResult(frame, Run.s, Run.v, z)
        fr == FR({})
        ends == IF MayDie THEN SelectSeq(Readings, LAMBDA z : EndsIn(FR(z).marks)) ELSE << >>
        dies == SelectSeq(ends, LAMBDA z : Cut(FR(z).marks))
        ok == SelectSeq(Readings, LAMBDA z : Printed(FR(z).lines))
        known == SelectSeq(Readings, LAMBDA z : KnownPrinted(FR(z).lines))
        \* what ends in a number is there as soon as the frame is
        Timely(r) == r.lines # << >> /\ r.lines[Len(r.lines)].k = "num" =>
                        \A j \in 1..Len(R.avail) : R.avail[j][1] >= f.z => R.avail[j][2] >= i - 1 + Len(r.lines)
    IN  IF res = "run" /\ ~Timely(fr) THEN Reject
        ELSE IF dies # << >> THEN Note("short-name") /\ res' = "ok" /\ UNCHANGED << c, p, i >>
        ELSE IF res = "run" /\ Printed(fr.lines) THEN Continue(f, fr)
        ELSE IF res = "run" /\ ok # << >> THEN Continue(f, FR(ok[1]))
        ELSE IF res = "run" /\ known # << >> THEN Note("false-boolean") /\ Continue(f, FR(known[1]))
        ELSE IF ends # << >> THEN i' = Len(Out) + 1 /\ p' = f.z + 1 /\ res' = "lost" /\ c' = c
        ELSE Reject

Read ==
    /\ res \in {"run", "lost"}
    /\ LET f == T!Find(In, Len(In), p)
       IN  \* beyond the size of its buffer the program may or may not go on
           IF T!Delivers(f, BufSize) \/ (T!Delivers(f, 1000000) /\ i <= Len(Out)) 
           THEN \E frame \in {SubSeq(In, f.q, f.z)} : HandleFrame(f, frame)
           ELSE IF res = "lost" THEN Reject ELSE res' = "end" /\ UNCHANGED << c, p, i >>

\* what the arguments say: on, or what the program says about its use
Begin ==
    /\ res = "start"
    /\ CASE Run.k = "run" -> res' = "run" /\ UNCHANGED << c, p, i >>
         [] Run.k = "help" /\ R.status = 0 /\ Out # << >> -> res' = "ok" /\ UNCHANGED << c, p, i >>
         [] Run.k = "wrong" /\ R.status \in 1..125 /\ (\A j \in 1..Len(Out) : Hash \notin Range(Out[j])) ->
              res' = "ok" /\ UNCHANGED << c, p, i >>
         [] OTHER -> Reject

SetUp == \A j \in 1..Len(R.line) : LineOk9600([flags |-> Range(R.line[j].flags), speed |-> R.line[j].speed])

Finish ==
    /\ res = "end"
    /\ IF i = Len(Out) + 1 /\ R.rest = << >> /\ R.status = 0 /\ SetUp
       THEN res' = "ok" /\ UNCHANGED << c, p, i >>
       ELSE Reject

Next == Begin \/ Read \/ Finish

Spec == Init /\ [][Next]_vars
=============================================================================
