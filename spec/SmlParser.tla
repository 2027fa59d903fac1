------------------------------ MODULE SmlParser ------------------------------
(***************************************************************************)
(* The parser: a pushdown automaton over the grammar table.  One Step      *)
(* consumes one element, opens one list or closes one.                     *)
(*                                                                         *)
(* State st:                                                               *)
(*   pos   position of the next byte (1-based)                             *)
(*   stk   frames, the last one is on top                                  *)
(*   out   tokens of what was parsed so far                                *)
(*   err   a structural error was found; parsing has stopped               *)
(*   drop  the message was complete but its checksum is wrong              *)
(*                                                                         *)
(* Frame (all frames have the same shape):                                 *)
(*   k     "S" structure, "C" container, "G" the single goal at the bottom *)
(*   g     its name                                                        *)
(*   i     next field (S), number of elements still to come (C)            *)
(*   idx   index in out of its LST token                                   *)
(*   kept  elements kept so far (C)                                        *)
(*   w     DZG workaround active (container "list")                        *)
(*   vi    index in out of the value token, vb its first byte ("entry")    *)
(*   start position of the first byte ("msg")                              *)
(*                                                                         *)
(* The parameter z selects between the readings of boundary cases that the *)
(* properties leave open.  z is a set of                                   *)
(*   "o"  an octet string that ends exactly at the end of the buffer is    *)
(*        accepted (the code wants one more byte)                          *)
(*   "n"  so is a number of length 0                                       *)
(*   "w"  a number in a value or status with more than one header byte has *)
(*        the width its length asks for (the code looks at the first byte) *)
(* {} is what the code does today.                                         *)
(***************************************************************************)
EXTENDS SmlGrammar

----------------------------------------------------------------------------
(* Type-length headers                                                     *)

TypeOf(b) == ((b % 128) \div 16) * 16

BadHdr == [ok |-> FALSE, len |-> 0, nx |-> 0]

\* continuation: accumulated length a, header bytes so far k, list?, position
RECURSIVE HdrMore(_, _, _, _, _)
HdrMore(s, a, k, isList, p) ==
    IF p > Len(s) \/ a > 134217727        \* truncated; does not fit an int
    THEN BadHdr
    ELSE LET b == s[p]
             l == a * 16 + (b % 16)
         IN  IF b >= 128 THEN HdrMore(s, l, k + 1, isList, p + 1)
             ELSE [ok |-> TRUE, len |-> IF isList THEN l ELSE l - (k + 1), nx |-> p + 1]

\* header at position p: length of the data and the position behind the header
Header(s, p) ==
    IF p > Len(s) THEN BadHdr
    ELSE LET b == s[p]
         IN  IF b < 128
             THEN [ok |-> TRUE, len |-> IF b >= TList THEN b % 16 ELSE (b % 16) - 1,
                   nx |-> p + 1]
             ELSE HdrMore(s, b % 16, 1, TypeOf(b) = TList, p + 1)

----------------------------------------------------------------------------
(* Leaves.  A result has ok, the token, and the position of the next byte. *)

Fail == [ok |-> FALSE, tok |-> NIL, nx |-> 0]
Got(t, p) == [ok |-> TRUE, tok |-> t, nx |-> p]

ParseOct(s, p, z) ==
    IF p > Len(s) THEN Fail
    ELSE IF s[p] = 1 THEN Got(NIL, p + 1)
    ELSE IF TypeOf(s[p]) # TOct THEN Fail
    ELSE LET h == Header(s, p)
             room == Len(s) - h.nx + 1
         IN  IF ~h.ok \/ h.len < 0 \/ h.len > room \/ (h.len = room /\ "o" \notin z) THEN Fail
             ELSE Got(OCT(SubSeq(s, h.nx, h.nx + h.len - 1)), h.nx + h.len)

ParseNum(s, p, t, w, z) ==
    IF p > Len(s) THEN Fail
    ELSE IF s[p] = 1 THEN Got(NIL, p + 1)
    ELSE IF TypeOf(s[p]) # t THEN Fail
    ELSE LET h == Header(s, p)
             room == Len(s) - h.nx + 1
         IN  IF ~h.ok \/ h.len < 0 \/ h.len > w \/ h.len > room \/ (room = 0 /\ "n" \notin z) THEN Fail
             ELSE Got(NUM(t, Widen(SubSeq(s, h.nx, h.nx + h.len - 1), w, t = TInt)),
                      h.nx + h.len)

ParseBool(s, p) ==
    IF p > Len(s) THEN Fail
    ELSE IF s[p] = 1 THEN Got(NIL, p + 1)
    ELSE IF TypeOf(s[p]) # TBool THEN Fail
    ELSE LET h == Header(s, p)
         IN  IF ~h.ok \/ h.len # 1 \/ h.nx > Len(s) THEN Fail
             ELSE Got(BOOL(IF s[h.nx] = 0 THEN 0 ELSE 255), h.nx + 1)

\* numbers that keep their width
ParseAnyNum(s, p, t, z) ==
    LET n == IF "w" \in z /\ Header(s, p).ok THEN Header(s, p).len ELSE (s[p] % 16) - 1
    IN  IF n > 8 THEN Fail ELSE ParseNum(s, p, t, Width(n), z)

ParseValue(s, p, z) ==
    IF p > Len(s) THEN Fail
    ELSE IF s[p] = 1 THEN Got(NIL, p + 1)
    ELSE LET t == TypeOf(s[p])
         IN  CASE t = TOct -> ParseOct(s, p, z)
               [] t = TBool -> ParseBool(s, p)
               [] t \in {TInt, TUint} -> ParseAnyNum(s, p, t, z)
               [] OTHER -> Fail

ParseStatus(s, p, z) ==
    IF p > Len(s) THEN Fail
    ELSE IF s[p] = 1 THEN Got(NIL, p + 1)
    ELSE IF TypeOf(s[p]) = TUint THEN ParseAnyNum(s, p, TUint, z)
    ELSE Fail

----------------------------------------------------------------------------
(* A time yields up to three tokens.                                       *)

FailT == [ok |-> FALSE, toks |-> << >>, nx |-> 0]

\* the value of a time, behind the tag
ParseTimeVal(s, tag, p, z) ==
    IF p > Len(s) THEN FailT
    ELSE IF s[p] = 1
         THEN [ok |-> TRUE, toks |-> << LST(2), tag, NIL >>, nx |-> p + 1]
    ELSE IF TypeOf(s[p]) = TUint
         THEN LET v == ParseNum(s, p, TUint, 4, z)
              IN  [ok |-> v.ok, toks |-> << LST(2), tag, v.tok >>, nx |-> v.nx]
    ELSE IF TypeOf(s[p]) = TList     \* timestamp and two offsets: no value
         THEN LET h == Header(s, p)
                  a == IF h.ok /\ h.len = 3 THEN ParseNum(s, h.nx, TUint, 4, z) ELSE Fail
                  b == IF a.ok THEN ParseNum(s, a.nx, TInt, 2, z) ELSE Fail
                  c == IF b.ok THEN ParseNum(s, b.nx, TInt, 2, z) ELSE Fail
              IN  [ok |-> c.ok, toks |-> << LST(2), tag, NIL >>, nx |-> c.nx]
    ELSE FailT

ParseTime(s, p, z) ==
    IF p > Len(s) THEN FailT
    ELSE IF s[p] = 1 THEN [ok |-> TRUE, toks |-> << NIL >>, nx |-> p + 1]
    ELSE IF s[p] = 101               \* bare unsigned of 4 bytes: second index
         THEN ParseTimeVal(s, NUM(TUint, << 1 >>), p, z)
    ELSE IF TypeOf(s[p]) # TList THEN FailT
    ELSE LET h == Header(s, p)
             tag == IF h.ok /\ h.len = 2 THEN ParseNum(s, h.nx, TUint, 1, z) ELSE Fail
         IN  IF tag.ok THEN ParseTimeVal(s, tag.tok, tag.nx, z) ELSE FailT

ParseLeaf(s, p, g, z) ==
    IF g = "time" THEN ParseTime(s, p, z)
    ELSE LET r == CASE g = "oct" -> ParseOct(s, p, z)
                    [] g = "bool" -> ParseBool(s, p)
                    [] g = "value" -> ParseValue(s, p, z)
                    [] g = "status" -> ParseStatus(s, p, z)
                    [] OTHER -> ParseNum(s, p, NumType[g], NumWidth[g], z)
         IN  [ok |-> r.ok, toks |-> << r.tok >>, nx |-> r.nx]

----------------------------------------------------------------------------
(* DZG DVS74 correction                                                    *)

SerialName == OCT(<< 1, 0, 96, 1, 0, 255 >>)
PowerName  == OCT(<< 1, 0, 16, 7, 0, 255 >>)

\* 42000000..48999999 and 55000000..58999999, as 5 bytes
DzgLow1 == << 0, 2, 128, 222, 128 >>
DzgHigh1 == << 0, 2, 235, 174, 63 >>
DzgLow2 == << 0, 3, 71, 59, 192 >>
DzgHigh2 == << 0, 3, 132, 68, 191 >>

IdentifiesDzg(name, val) ==
    /\ name = SerialName
    /\ val[1] = 1 /\ Len(val) = 11
    /\ SubSeq(val, 2, 6) = << 10, 1, 68, 90, 71 >>
    /\ LET n == SubSeq(val, 7, 11)
       IN  (Leq(DzgLow1, n) /\ Leq(n, DzgHigh1)) \/ (Leq(DzgLow2, n) /\ Leq(n, DzgHigh2))

\* at most 2 bytes with a single header byte
AffectedByDzg(name, val, vb) ==
    /\ name = PowerName
    /\ val[1] = 3 /\ val[2] = TInt
    /\ vb < 128 /\ (vb % 16) \in 1..3

----------------------------------------------------------------------------
(* The automaton                                                           *)

Frame(k, g, i, idx, start) ==
    [k |-> k, g |-> g, i |-> i, idx |-> idx, kept |-> 0, w |-> FALSE,
     vi |-> 0, vb |-> 0, start |-> start]

Start(g, p) == [pos |-> p, stk |-> << Frame("G", g, 1, 0, p) >>, out |-> << >>,
                err |-> FALSE, drop |-> FALSE]

Running(st) == st.stk # << >> /\ ~st.err /\ ~st.drop

Err(st) == [st EXCEPT !.err = TRUE]

Top(st) == st.stk[Len(st.stk)]
Push(stk, f) == Append(stk, f)
Pop(stk) == SubSeq(stk, 1, Len(stk) - 1)
SetTop(stk, f) == [stk EXCEPT ![Len(stk)] = f]

\* open a list at the current position for goal g; stk already advanced
Open(s, st, stk, k, g) ==
    IF TypeOf(s[st.pos]) # TList THEN Err(st)
    ELSE LET h == Header(s, st.pos)
             idx == Len(st.out) + 1
         IN  IF ~h.ok \/ (k = "S" /\ h.len # Len(Fields[g])) THEN Err(st)
             ELSE [st EXCEPT !.pos = h.nx,
                             !.out = Append(@, LST(h.len)),
                             !.stk = Push(stk, Frame(k, g, IF k = "S" THEN 1 ELSE h.len,
                                                     idx, st.pos))]

\* parse goal g next; stk is the stack with its frame already advanced
Goal(s, st, stk, g, z) ==
    IF g \in Leaves
    THEN LET r == ParseLeaf(s, st.pos, g, z)
         IN  IF ~r.ok THEN Err(st)
             ELSE [st EXCEPT !.pos = r.nx, !.out = @ \o r.toks, !.stk = stk]
    ELSE IF st.pos > Len(s) THEN Err(st)
    ELSE IF s[st.pos] = 1 /\ ( \/ g \in OptStruct
                               \/ g \in DOMAIN Containers /\ Containers[g].opt )
         THEN [st EXCEPT !.pos = @ + 1, !.out = Append(@, NIL), !.stk = stk]
    ELSE Open(s, st, stk, IF g \in Structs THEN "S" ELSE "C", g)

\* a mandatory number that selects an alternative
Tag(s, st, stk, t, w, known(_), z) ==
    LET r == ParseNum(s, st.pos, t, w, z)
    IN  IF ~r.ok \/ r.tok = NIL \/ ~known(r.tok) THEN Err(st)
        ELSE [st EXCEPT !.pos = r.nx, !.out = Append(@, r.tok), !.stk = stk]

\* checksum of a message: X.25, or Kermit as used by Holley DTZ541
Crc(s, st, stk, f, z) ==
    IF Len(s) - st.pos + 1 < 3 THEN Err(st)
    ELSE LET r == ParseNum(s, st.pos, TUint, 2, z)
             covered == SubSeq(s, f.start, st.pos - 1)
             v == r.tok[3] * 256 + r.tok[4]
         IN  IF ~r.ok \/ r.tok = NIL THEN Err(st)
             ELSE IF v # X25(covered) /\ v # Kermit(covered)
                  THEN [st EXCEPT !.pos = r.nx, !.drop = TRUE]
             ELSE [st EXCEPT !.pos = r.nx, !.out = Append(@, r.tok), !.stk = stk]

\* end of message: a zero byte, consumed if it is there
EndOfMsg(s, st, stk) ==
    IF st.pos > Len(s) THEN Err(st)
    ELSE [st EXCEPT !.pos = IF s[st.pos] = 0 THEN @ + 1 ELSE @, !.stk = stk]

StepField(s, st, f, z) ==
    LET g == Fields[f.g][f.i]
        f1 == IF f.g = "entry" /\ g = "value" /\ st.pos <= Len(s)
              THEN [f EXCEPT !.i = @ + 1, !.vi = Len(st.out) + 1, !.vb = s[st.pos]]
              ELSE [f EXCEPT !.i = @ + 1]
        stk == SetTop(st.stk, f1)
    IN  CASE g = "ppvtag" -> Tag(s, st, stk, TUint, 1,
                                 LAMBDA t : PpvGoal(t[3]) # "none", z)
          [] g = "bodytag" -> Tag(s, st, stk, TUint, 4,
                                  LAMBDA t : BodyGoal(SubSeq(t, 3, 6)) # "none", z)
          [] g = "ppvdata" -> Goal(s, st, stk, PpvGoal(st.out[Len(st.out)][3]), z)
          [] g = "bodydata" -> Goal(s, st, stk, BodyGoal(SubSeq(st.out[Len(st.out)], 3, 6)), z)
          [] g = "crc" -> Crc(s, st, stk, f, z)
          [] g = "end" -> EndOfMsg(s, st, stk)
          [] OTHER -> Goal(s, st, stk, g, z)

\* a list entry is complete: DZG correction
CloseEntry(st, f, below) ==
    LET lf == below[Len(below)]
        name == st.out[f.idx + 1]
        val == st.out[f.vi]
    IN  IF lf.k # "C" THEN [st EXCEPT !.stk = below]
        ELSE IF IdentifiesDzg(name, val)
             THEN [st EXCEPT !.stk = SetTop(below, [lf EXCEPT !.w = TRUE])]
        ELSE IF lf.w /\ AffectedByDzg(name, val, f.vb)
             THEN [st EXCEPT !.stk = below, !.out[f.vi][2] = TUint]
        ELSE [st EXCEPT !.stk = below]

\* all elements of a container are there
CloseContainer(st, f, below) ==
    IF f.kept = 0 /\ Containers[f.g].nil0
    THEN [st EXCEPT !.stk = below, !.out[f.idx] = NIL]
    ELSE [st EXCEPT !.stk = below, !.out[f.idx] = LST(f.kept)]

StepElem(s, st, f, z) ==
    LET c == Containers[f.g]
        skip == st.pos <= Len(s) /\ s[st.pos] = 1 /\ c.drop
        f1 == [f EXCEPT !.i = @ - 1, !.kept = IF skip THEN @ ELSE @ + 1]
        stk == SetTop(st.stk, f1)
    IN  IF skip THEN [st EXCEPT !.pos = @ + 1, !.stk = stk]
        ELSE Goal(s, st, stk, c.elem, z)

Step(s, st, z) ==
    LET f == Top(st)
        below == Pop(st.stk)
    IN  CASE f.k = "G" -> IF f.i = 1 THEN Goal(s, st, SetTop(st.stk, [f EXCEPT !.i = 2]), f.g, z)
                          ELSE [st EXCEPT !.stk = << >>]
          [] f.k = "S" -> IF f.i <= Len(Fields[f.g]) THEN StepField(s, st, f, z)
                          ELSE IF f.g = "entry" THEN CloseEntry(st, f, below)
                          ELSE [st EXCEPT !.stk = below]
          [] f.k = "C" -> IF f.i > 0 THEN StepElem(s, st, f, z)
                          ELSE CloseContainer(st, f, below)

----------------------------------------------------------------------------
(* Whole runs                                                              *)

(* TLC's context grows with the depth of a recursion, and with it the time *)
(* every step takes: steps are taken in blocks.                            *)
Block == [i \in 1..48 |-> i]

RECURSIVE RunFrom(_, _, _)
RunFrom(s, st, z) ==
    IF Running(st)
    THEN RunFrom(s, FoldLeft(LAMBDA a, i : IF Running(a) THEN Step(s, a, z) ELSE a, st, Block), z)
    ELSE st

\* result of parsing goal g at position p
Parse(s, p, g, z) == RunFrom(s, Start(g, p), z)

\* a file: position, the tokens of each message, whether it stopped at an error
FileStep(s, f, z) ==
    IF s[f.p] = 0 THEN LET e == FirstOf(LAMBDA i : s[i] # 0, f.p, Len(s), 1)
                         IN  [f EXCEPT !.p = IF e = 0 THEN Len(s) + 1 ELSE e]
    ELSE LET st == Parse(s, f.p, "msg", z)
         IN  IF st.err THEN [f EXCEPT !.err = TRUE]
             ELSE [f EXCEPT !.p = st.pos, !.msgs = IF st.drop THEN @ ELSE Append(@, st.out)]
FileGoes(s, f) == ~f.err /\ f.p <= Len(s)

RECURSIVE FileFrom(_, _, _)
FileFrom(s, f, z) ==
    IF FileGoes(s, f)
    THEN FileFrom(s, FoldLeft(LAMBDA a, i : IF FileGoes(s, a) THEN FileStep(s, a, z) ELSE a, f, Block), z)
    ELSE [msgs |-> f.msgs, err |-> f.err]

ParseFile(s, z) == FileFrom(s, [p |-> 1, msgs |-> << >>, err |-> FALSE], z)
=============================================================================
