----------------------------- MODULE SmlGenServer ----------------------------
(***************************************************************************)
(* Streams for sml_server: frames with value lists whose entries are put   *)
(* together from every kind of name, value, scaler and unit, with other    *)
(* messages, damaged messages, noise and broken frames in between.         *)
(*                                                                         *)
(* What has to be printed follows from how the stream was put together;    *)
(* TLC checks that what SmlServer says about the bytes agrees with that,   *)
(* and that the options do what they should.                               *)
(***************************************************************************)
EXTENDS SmlServer, Json, IOUtils

P == ndJsonDeserialize(IOEnv.PARAMS)[1]

S(bs) == OCT(bs)
U(bs) == NUM(TUint, bs)
I(bs) == NUM(TInt, bs)

Names == << S(<< 1, 0, 1, 8, 0, 255 >>), S(<< 255, 255, 255, 255, 255, 255 >>), S(<< 0, 0, 0, 0, 0, 0 >>),
            S(<< 1, 0, 16, 7, 0, 255 >>), S(<< 9, 10, 99, 100, 199, 200 >>), S(<< 127, 128, 129, 2, 3, 4, 5 >>),
            S(<< 1, 0, 96, 1, 0, 255 >>), S(<< 129, 129, 199, 130, 3, 255 >>),
            S(Rep(40, 200)), NIL, S(<< 1, 0, 1, 8, 0 >>), S(<< 1 >>), S(<< 1, 0, 1 >>) >>
Complete == 9
Values == << U(<< 0 >>), U(<< 1 >>), U(<< 255 >>), I(<< 127 >>), I(<< 128 >>), I(<< 255 >>), I(<< 0 >>),
             U(<< 255, 255 >>), I(<< 128, 0 >>), I(<< 255, 56 >>), I(<< 0, 200 >>),
             U(<< 255, 255, 255, 255 >>), U(<< 0, 15, 66, 63 >>), I(<< 128, 0, 0, 0 >>), I(<< 255, 255, 255, 255 >>),
             U(Rep(8, 255)), I(<< 128 >> \o Rep(7, 0)), I(Rep(8, 255)), I(<< 127 >> \o Rep(7, 255)),
             U(<< 0, 3, 141, 126, 164, 198, 127, 255 >>),     \* 999999999999999
             I(<< 255, 252, 114, 129, 91, 57, 128, 1 >>),     \* -999999999999999
             U(<< 0, 3, 141, 126, 164, 198, 128, 0 >>), U(<< 0, 0, 0, 2, 84, 11, 227, 255 >>),
             U(<< 0, 0, 112, 72, 134, 13, 223, 121 >>), U(<< 0, 32, 0, 0, 0, 0, 0, 1 >>),
             BOOL(0), BOOL(255), NIL,
             S(<< 65 >>), S(<< 0 >>), S(<< 72, 76, 89, 2, 0, 0 >>), S(<< 9, 1, 72, 76, 89 >>), S(<< 33, 122, 123, 33 >>),
             S(<< 37, 115, 37, 110 >>), S(Rep(70, 98)), S(Rep(40, 255)), S(<< 97, 32, 98 >>), S(<< 1, 0, 255, 16 >>), S(Rep(7, 35)) >>
Scalers == << NIL, I(<< 0 >>), I(<< 255 >>), I(<< 254 >>), I(<< 253 >>), I(<< 252 >>), I(<< 251 >>), I(<< 246 >>), I(<< 241 >>),
              I(<< 232 >>), I(<< 206 >>), I(<< 128 >>), I(<< 1 >>), I(<< 2 >>), I(<< 3 >>), I(<< 9 >>), I(<< 14 >>), I(<< 22 >>),
              I(<< 40 >>), I(<< 127 >>) >>
UnitList == << NIL, U(<< 27 >>), U(<< 30 >>), U(<< 8 >>), U(<< 58 >>), U(<< 255 >>), U(<< 0 >>), U(<< 62 >>) >>
Statuses == << NIL, U(<< 1 >>), U(<< 0, 16, 1, 4 >>) >>
Times == << << NIL >>, << LST(2), U(<< 1 >>), U(<< 0, 1, 2, 3 >>) >>, << LST(2), U(<< 2 >>), U(Rep(4, 255)) >> >>
Sigs == << NIL, S(<< 1, 2, 3 >>) >>

\* an entry: indexes into the above
Entry(n, v, s, u, o) ==
    [name |-> Names[n], val |-> Values[v], sc |-> Scalers[s], unit |-> UnitList[u],
     st |-> Statuses[1 + (o % 3)], time |-> Times[1 + ((o \div 3) % 3)], sig |-> Sigs[1 + ((o \div 9) % 2)]]

EntToks(e) == << LST(7), e.name, e.st >> \o e.time \o << e.unit, e.sc, e.val, e.sig >>

\* a message: kind "list" with entries es; "other", "drop" (wrong checksum), "bad" (malformed)
ListMsg(es, o) ==
    << LST(6), S(<< o % 256 >>), U(<< 0 >>), U(<< 0 >>), LST(2), U(<< 0, 0, 7, 1 >>), LST(7), NIL, S(<< 10, 1 >>), NIL >>
    \o Times[1 + (o % 3)] \o (IF es = << >> THEN << NIL >> ELSE << LST(Len(es)) >>) \o Concat([i \in 1..Len(es) |-> EntToks(es[i])])
    \o << NIL >> \o Times[1 + ((o \div 3) % 3)] \o << NIL >>
OpenRes == << LST(6), S(<< 7 >>), U(<< 0 >>), U(<< 0 >>), LST(2), U(<< 0, 0, 1, 1 >>), LST(6), NIL, NIL, S(<< 1 >>), S(<< 2 >>), NIL, NIL, NIL >>
CloseRes == << LST(6), NIL, U(<< 0 >>), U(<< 0 >>), LST(2), U(<< 0, 0, 2, 1 >>), LST(1), NIL, NIL >>
Attention == << LST(6), NIL, NIL, NIL, LST(2), U(<< 0, 0, 255, 1 >>), LST(4), S(<< 1 >>), S(Rep(6, 129)), NIL, NIL, NIL >>

Wrong(w) == [w EXCEPT ![Len(w) - 1] = (@ + 1) % 256]
Malformed == << 118, 1, 98, 0, 98, 0, 114, 99, 7, 1, 118, 1 >>

WireOf(m) == CASE m.k = "list" -> EncodeMsg(ListMsg(m.es, m.o))
               [] m.k = "drop" -> Wrong(EncodeMsg(ListMsg(m.es, m.o)))
               [] m.k = "open" -> EncodeMsg(OpenRes)
               [] m.k = "close" -> EncodeMsg(CloseRes)
               [] m.k = "att" -> EncodeMsg(Attention)
               [] m.k = "bad" -> Malformed
TagOf(m) == CASE m.k = "list" -> << 0, 0, 7, 1 >> [] m.k = "open" -> << 0, 0, 1, 1 >>
              [] m.k = "close" -> << 0, 0, 2, 1 >> [] m.k = "att" -> << 0, 0, 255, 1 >>

Noise == << << >>, << 27, 27, 27 >>, << 1, 1, 1, 1 >>, << 27, 27, 27, 27, 27 >>, << 0, 47, 13, 10 >>, << 27, 27, 27, 27, 26, 0, 18, 52 >> >>

\* a frame: noise in front of it and messages; end "cut": an unknown escape, "short": the stream ends
PayloadOf(f) == Concat([i \in 1..Len(f.ms) |-> WireOf(f.ms[i])])
FrameWire(f) ==
    LET b == Frame1(PayloadOf(f))
    IN  Noise[f.noise] \o (CASE f.end = "ok" -> b [] f.end = "cut" -> SubSeq(b, 1, Len(b) - 4) \o << 2, 0, 0, 0 >>
                             [] f.end = "short" -> SubSeq(b, 1, Len(b) - 3))

----------------------------------------------------------------------------
VARIABLES frames, rnd, done
vars == << frames, rnd, done >>

Rand(r) == (r * 75 + 74) % 65537
R2(r) == Rand(Rand(r))

\* names that are complete; with P.nameless all of them
NN == IF P.nameless THEN Len(Names) ELSE Complete

NilValue == CHOOSE j \in 1..Len(Values) : Values[j] = NIL

RECURSIVE DrawEntries(_, _, _)
DrawEntries(es, n, r) ==
    IF n = 0 THEN es
    ELSE LET a == R2(r) b == R2(a) d == R2(b) e == R2(d) f == R2(e)
             vl == 1 + ((b \div 5) % (Len(Values) + 4))
             v == IF vl > Len(Values) THEN NilValue ELSE vl
             \* without a value, no name is needed
             nn == IF v = NilValue THEN Len(Names) ELSE NN
             nm == 1 + ((a \div 5) % (nn + 12))
         IN  DrawEntries(Append(es, Entry(IF nm > nn THEN 1 ELSE nm, v,
                                          1 + ((d \div 5) % Len(Scalers)), 1 + ((e \div 5) % Len(UnitList)), f % 18)), n - 1, f)

Kinds == << "list", "list", "list", "list", "list", "open", "close", "att", "drop", "bad" >>
RECURSIVE DrawMsgs(_, _, _)
DrawMsgs(ms, n, r) ==
    IF n = 0 THEN ms
    ELSE LET a == R2(r) b == R2(a) d == R2(b)
             k == Kinds[1 + ((a \div 7) % 10)]
         IN  DrawMsgs(Append(ms, [k |-> k, o |-> d % 256,
                                  es |-> IF k \in {"list", "drop"} THEN DrawEntries(<< >>, IF b % 17 = 0 THEN 18 ELSE (b \div 7) % 6, d) ELSE << >>]), n - 1, R2(R2(d)))
Ends == << "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "cut", "short" >>
RECURSIVE DrawFrames(_, _, _)
DrawFrames(fs, n, r) ==
    IF n = 0 THEN fs
    ELSE LET a == R2(r) b == R2(a) d == R2(b)
         IN  DrawFrames(Append(fs, [ms |-> DrawMsgs(<< >>, IF a % 13 = 0 THEN 8 + (a % 9) ELSE (a \div 7) % 5, d), noise |-> 1 + ((b \div 7) % Len(Noise)),
                                    end |-> LET e == Ends[1 + ((d \div 7) % 10)]
                                            IN  IF e = "short" /\ n > 1 THEN "cut" ELSE e]), n - 1, R2(R2(d + 1)))

\* cover: every value with every scaler, all units
Single(es) == << [ms |-> << [k |-> "list", o |-> 1, es |-> es], [k |-> "close", o |-> 0, es |-> << >>] >>, noise |-> 1, end |-> "ok"] >>
NV == Len(Values)
NC == NV + NN + 16
Cover(n) ==
    Single(IF n <= NV
           THEN [s \in 1..Len(Scalers) |-> Entry(1 + (s % 8), n, s, 1 + ((s + n) % Len(UnitList)), n + s)]
           ELSE IF n <= NV + NN THEN [v \in 1..NV |-> Entry(n - NV, v, 3, 2, v)]
           ELSE LET h == n - NV - NN - 1
                IN  IF h < 8
                    THEN [i \in 1..32 |-> [Entry(1, 2, 2, 1, i) EXCEPT !.unit = U(<< 32 * h + i - 1 >>)]]
                    ELSE [i \in 1..32 |-> [Entry(1, 13, 2, 2, i) EXCEPT !.sc = I(<< 32 * (h - 8) + i - 1 >>)]])

Init == /\ done = FALSE /\ frames = << >>
        /\ IF P.mode = "cover" THEN rnd \in 1..NC
           ELSE \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
Next == /\ ~done /\ done' = TRUE /\ rnd' = rnd
        /\ IF P.mode = "cover" THEN frames' = Cover(rnd)
           ELSE frames' = DrawFrames(<< >>, 1 + (R2(rnd) % P.len), R2(rnd + 7))
Spec == Init /\ [][Next]_vars

Stream == Concat([i \in 1..Len(frames) |-> FrameWire(frames[i])])

----------------------------------------------------------------------------
\* what is printed, from how the stream was put together
Intact(ms) == LET b == { i \in 1..Len(ms) : ms[i].k = "bad" }
                  n == IF b = {} THEN Len(ms) ELSE CHOOSE i \in b : \A j \in b : i <= j
              IN  SelectSeq(SubSeq(ms, 1, IF b = {} THEN n ELSE n - 1), LAMBDA m : m.k # "drop")
\* noise that ends in bytes that belong to a frame's start is still noise; frames up to the first broken one
RECURSIVE UpTo(_, _)
UpTo(fs, i) == IF i > Len(fs) \/ fs[i].end # "ok" THEN i - 1 ELSE UpTo(fs, i + 1)
\* the DZG correction is checked elsewhere: no value here identifies an affected meter
EntsOf(m) == IF m.k # "list" THEN << >>
             ELSE Concat([j \in 1..Len(m.es) |-> EntryLines(m.es[j].name, m.es[j].val, m.es[j].sc, m.es[j].unit)])
Expected == Concat([i \in 1..UpTo(frames, 1) |-> LET ms == Intact(frames[i].ms) IN Concat([j \in 1..Len(ms) |-> EntsOf(ms[j])])])
Tags == Concat([i \in 1..UpTo(frames, 1) |-> LET ms == Intact(frames[i].ms) IN [j \in 1..Len(ms) |-> TagLine(TagOf(ms[j]))]])

RECURSIVE Run(_, _, _, _)
Run(s, p, single, verbose) ==
    LET f == T!Find(s, Len(s), p)
        r == FrameResult(SubSeq(s, f.q, f.z), single, verbose, {})
    IN  IF ~T!Delivers(f, 8096) THEN << >>
        ELSE r.lines \o (IF r.stop THEN << >> ELSE Run(s, f.z + 1, single, verbose))

IsSummary(l) == l.k = "file" \/ l = ObisLine \/ IsPrefix(Sml, l.pre)

PrintsReadings == done => Run(Stream, 1, FALSE, FALSE) = Expected
SingleIsFirst == done =>
    LET one == Run(Stream, 1, TRUE, FALSE)
        ms == Concat([i \in 1..UpTo(frames, 1) |-> Intact(frames[i].ms)])
        ls == SelectSeq(ms, LAMBDA m : m.k = "list")
    IN  one = IF ls = << >> THEN << >> ELSE EntsOf(ls[1])
VerboseAdds == done =>
    LET v == Run(Stream, 1, FALSE, TRUE)
    IN  /\ SelectSeq(v, LAMBDA l : ~IsSummary(l)) = Run(Stream, 1, FALSE, FALSE)
        /\ SelectSeq(v, LAMBDA l : l.k = "text" /\ l # ObisLine /\ IsSummary(l)) = Tags

Emit == done => PrintT(ToJson([w |-> Stream]))
=============================================================================
