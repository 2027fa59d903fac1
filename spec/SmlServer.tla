------------------------------ MODULE SmlServer ------------------------------
(***************************************************************************)
(* examples/sml_server: a stream of frames in, a line of text per reading  *)
(* out.                                                                    *)
(*                                                                         *)
(* A line that is to be printed is a record: k is "text", "num" or "file". *)
(* Numbers and the size in the summary of a file are not always determined *)
(* to the last digit; LineOk says which texts are right for a line.        *)
(***************************************************************************)
EXTENDS SmlParser, SmlWriter, SmlValue

T == INSTANCE SmlTransport WITH G <- 4, Esc <- 27, One <- 1, End <- 26

----------------------------------------------------------------------------
(* Decimal numbers: sequences of digits, most significant first            *)

RECURSIVE CarryDigits(_)
CarryDigits(c) == IF c = 0 THEN << >> ELSE Append(CarryDigits(c \div 10), c % 10)

\* d * m + a
MulAdd(d, m, a) ==
    LET r == FoldRight(LAMBDA x, acc : << (x * m + acc[1]) \div 10, << (x * m + acc[1]) % 10 >> \o acc[2] >>,
                       d, << a, << >> >>)
    IN  CarryDigits(r[1]) \o r[2]

\* the digits of a big-endian number, none for 0
Decimal(bytes) == FoldLeft(LAMBDA d, b : MulAdd(d, 256, b), << >>, bytes)

RECURSIVE StripZeros(_)
StripZeros(d) == IF d # << >> /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d

PadTo(d, n) == IF Len(d) >= n THEN d ELSE Rep(n - Len(d), 0) \o d

\* a - b, for a >= b of the same length
Minus(a, b) ==
    FoldRight(LAMBDA x, acc : LET v == x[1] - x[2] - acc[1]
                              IN  << IF v < 0 THEN 1 ELSE 0, << (v + 10) % 10 >> \o acc[2] >>,
              [i \in 1..Len(a) |-> << a[i], b[i] >>], << 0, << >> >>)[2]
Distance(a, b) ==
    LET n == Max2(Len(a), Len(b))
        x == PadTo(a, n)
        y == PadTo(b, n)
    IN  StripZeros(IF Leq(y, x) THEN Minus(x, y) ELSE Minus(y, x))

Text(d) == [i \in 1..Len(d) |-> 48 + d[i]]
NatText(n) == IF n = 0 THEN << 48 >> ELSE Text(CarryDigits(n))

----------------------------------------------------------------------------
(* Units: DLMS / IEC 62056-62, in UTF-8                                    *)

Units ==
    1 :> << 97 >> @@ 2 :> << 109, 111 >> @@ 3 :> << 119, 107 >> @@ 4 :> << 100 >> @@
    5 :> << 104 >> @@ 6 :> << 109, 105, 110, 46 >> @@ 7 :> << 115 >> @@ 8 :> << 194, 176 >> @@
    9 :> << 194, 176, 67 >> @@ 10 :> << 99, 117, 114, 114, 101, 110, 99, 121 >> @@
    11 :> << 109 >> @@ 12 :> << 109, 47, 115 >> @@ 13 :> << 109, 194, 179 >> @@
    14 :> << 109, 194, 179 >> @@ 15 :> << 109, 194, 179, 47, 104 >> @@
    16 :> << 109, 194, 179, 47, 104 >> @@ 17 :> << 109, 194, 179, 47, 100 >> @@
    18 :> << 109, 194, 179, 47, 100 >> @@ 19 :> << 108 >> @@ 20 :> << 107, 103 >> @@
    21 :> << 78 >> @@ 22 :> << 78, 109 >> @@ 23 :> << 80, 97 >> @@ 24 :> << 98, 97, 114 >> @@
    25 :> << 74 >> @@ 26 :> << 74, 47, 104 >> @@ 27 :> << 87 >> @@ 28 :> << 86, 65 >> @@
    29 :> << 118, 97, 114 >> @@ 30 :> << 87, 104 >> @@ 31 :> << 86, 65, 104 >> @@
    32 :> << 118, 97, 114, 104 >> @@ 33 :> << 65 >> @@ 34 :> << 67 >> @@ 35 :> << 86 >> @@
    36 :> << 86, 47, 109 >> @@ 37 :> << 70 >> @@ 38 :> << 206, 169 >> @@
    39 :> << 206, 169, 109, 194, 178, 47, 109 >> @@ 40 :> << 87, 98 >> @@ 41 :> << 84 >> @@
    42 :> << 65, 47, 109 >> @@ 43 :> << 72 >> @@ 44 :> << 72, 122 >> @@
    45 :> << 49, 47, 40, 87, 104, 41 >> @@ 46 :> << 49, 47, 40, 118, 97, 114, 104, 41 >> @@
    47 :> << 49, 47, 40, 86, 65, 104, 41 >> @@ 48 :> << 86, 194, 178, 104 >> @@
    49 :> << 65, 194, 178, 104 >> @@ 50 :> << 107, 103, 47, 115 >> @@
    51 :> << 83, 44, 32, 109, 104, 111 >> @@ 52 :> << 75 >> @@
    53 :> << 49, 47, 40, 86, 194, 178, 104, 41 >> @@
    54 :> << 49, 47, 40, 65, 194, 178, 104, 41 >> @@ 55 :> << 49, 47, 109, 194, 179 >> @@
    56 :> << 37 >> @@ 57 :> << 65, 104 >> @@ 60 :> << 87, 104, 47, 109, 194, 179 >> @@
    61 :> << 74, 47, 109, 194, 179 >> @@ 62 :> << 77, 111, 108, 32, 37 >> @@
    63 :> << 103, 47, 109, 194, 179 >> @@ 64 :> << 80, 97, 32, 115 >> @@
    253 :> << 40, 114, 101, 115, 101, 114, 118, 101, 100, 41 >> @@
    254 :> << 40, 111, 116, 104, 101, 114, 41 >> @@
    255 :> << 40, 117, 110, 105, 116, 108, 101, 115, 115, 41 >>

----------------------------------------------------------------------------
(* The lines for a value list                                              *)

\* six numbers: 1-0:1.8.0*255#
NameText(n) ==
    NatText(n[1]) \o << 45 >> \o NatText(n[2]) \o << 58 >> \o NatText(n[3]) \o << 46 >> \o NatText(n[4])
    \o << 46 >> \o NatText(n[5]) \o << 42 >> \o NatText(n[6]) \o << 35 >>

Hash == 35
TextLine(b) == [k |-> "text", pre |-> b, neg |-> FALSE, digits |-> << >>, dec |-> 0, post |-> << >>, alt |-> << >>]

\* Two defects of the program are recorded, not repaired (see KNOWN_FINDINGS).  They are
\* told apart from anything else by the entry that shows them: alt is what is printed
\* instead of the text of a line, and a "void" stands in the place of an entry that has a
\* value but no complete name; there the program reads what does not exist.
True == << 116, 114, 117, 101 >>
False == << 102, 97, 108, 115, 101 >>
Void == [TextLine(<< >>) EXCEPT !.k = "void"]
Visible(lines) == SelectSeq(lines, LAMBDA l : l.k # "void")

SignedByte(b) == IF b >= 128 THEN b - 256 ELSE b

NumLine(name, val, scaler, unit) ==
    LET raw == SubSeq(val, 3, Len(val))
        neg == val[2] = TInt /\ raw[1] >= 128
        d == Decimal(IF neg THEN BitsBytes(Neg(Bits(raw))) ELSE raw)
        s == IF scaler = NIL THEN 0 ELSE SignedByte(scaler[3])
    IN  [k |-> "num", pre |-> NameText(name), neg |-> neg,
         digits |-> IF d = << >> \/ s <= 0 THEN d ELSE d \o Rep(s, 0),
         dec |-> IF s < 0 THEN -s ELSE 0,
         post |-> << Hash >> \o (IF unit # NIL /\ unit[3] \in DOMAIN Units THEN Units[unit[3]] ELSE << >>),
         alt |-> << >>]

\* name, value, scaler, unit: tokens
EntryMarks(name, val, scaler, unit) ==
    IF val = NIL THEN << >>
    ELSE IF name[1] # 1 \/ Len(name) < 7 THEN << Void >>
    ELSE LET n == SubSeq(name, 2, 7)
         IN  CASE val[1] = 1 -> << TextLine(NameText(n) \o StrHex(From(val, 2), TRUE) \o << Hash >>) >>
               [] val[1] = 2 -> << [TextLine(NameText(n) \o (IF val[2] = 0 THEN False ELSE True) \o << Hash >>)
                                    EXCEPT !.alt = IF val[2] = 0 THEN NameText(n) \o True \o << Hash >> ELSE << >>] >>
               [] val[1] = 3 -> << NumLine(n, val, scaler, unit) >>
EntryLines(name, val, scaler, unit) == Visible(EntryMarks(name, val, scaler, unit))

\* number of tokens of the subtree at i: only times have more than one inside an entry
TimeToks(ts, i) == IF ts[i][1] = 4 THEN 3 ELSE 1

RECURSIVE ListLines(_, _, _)
ListLines(ts, i, n) ==
    IF n = 0 THEN << >>
    ELSE LET t == TimeToks(ts, i + 3)     \* at i: the entry, name, status, time
             u == i + 3 + t               \* unit, scaler, value, signature
         IN  EntryMarks(ts[i + 1], ts[u + 2], ts[u + 1], ts[u]) \o ListLines(ts, u + 4, n - 1)

\* a message: its tokens are LST(6) id group abort LST(2) tag body...
MsgTag(ts) == SubSeq(ts[6], 3, 6)
IsListRes(ts) == MsgTag(ts) = << 0, 0, 7, 1 >>
ListResLines(ts) ==
    LET i == 11 + TimeToks(ts, 11)      \* LST(7) client server name time list
    IN  IF ts[i] = NIL THEN << >> ELSE ListLines(ts, i + 1, ts[i][2])

----------------------------------------------------------------------------
(* The summary                                                             *)

Sml == << 83, 77, 76, 32 >>
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Text16(d) == [i \in 1..Len(d) |-> HexUp(d[i])]
\* hexadecimal digits of a big-endian number without leading zeros
HexUpper(bs) ==
    Text16(StripZeros(Concat([i \in 1..Len(bs) |-> << bs[i] \div 16, bs[i] % 16 >>])))

TagLine(tag) ==
    LET h == HexUpper(tag)
    IN  TextLine(Sml \o << 109, 101, 115, 115, 97, 103, 101, 32 >> \o Rep(4 - Min2(4, Len(h)), 32) \o h)

\* SML file (n SML messages, b bytes); b is negative where it is not determined
FileLine(n, b) ==
    [k |-> "file", pre |-> Sml \o << 102, 105, 108, 101, 32, 40 >> \o NatText(n)
                          \o << 32, 83, 77, 76, 32, 109, 101, 115, 115, 97, 103, 101, 115, 44, 32 >>,
     neg |-> FALSE, digits |-> IF b < 0 THEN << >> ELSE NatText(b), dec |-> b, alt |-> << >>,
     post |-> << 32, 98, 121, 116, 101, 115, 41 >>]

ObisLine == TextLine(<< 79, 66, 73, 83, 32, 100, 97, 116, 97 >>)

----------------------------------------------------------------------------
(* A frame                                                                 *)

Payload(f) == SubSeq(f, 9, Len(f) - 8)

\* the index of the first list response, 0 if there is none
RECURSIVE FirstList(_, _)
FirstList(msgs, i) == IF i > Len(msgs) THEN 0 ELSE IF IsListRes(msgs[i]) THEN i ELSE FirstList(msgs, i + 1)

\* TLC evaluates what is passed to an operator again and again; v is evaluated once
With(v, Op(_)) == CHOOSE y \in { Op(x) : x \in {v} } : TRUE

\* what is printed for the payload p of a frame that is the file f: lines, and whether
\* the program ends there
FileResult(p, f, single, verbose) ==
    LET head == IF ~verbose THEN << >>
                ELSE << FileLine(Len(f.msgs), IF f.err THEN -1 ELSE Len(p)) >>
                     \o [i \in 1..Len(f.msgs) |-> TagLine(MsgTag(f.msgs[i]))] \o << ObisLine >>
        first == FirstList(f.msgs, 1)
        upto == IF single /\ first > 0 THEN first ELSE Len(f.msgs)
        all == head \o Concat([i \in 1..upto |-> IF IsListRes(f.msgs[i]) THEN ListResLines(f.msgs[i]) ELSE << >>])
    IN  [lines |-> Visible(all),
         marks |-> all,
         stop |-> single /\ first > 0]

FrameResult(frame, single, verbose, z) ==
    With(Payload(frame), LAMBDA p :
        With(ParseFile(p, z), LAMBDA f : FileResult(p, f, single, verbose)))

----------------------------------------------------------------------------
(* Texts that are right for a line                                         *)

IsDigits(t) == \A i \in 1..Len(t) : t[i] \in 48..57
Digits(t) == [i \in 1..Len(t) |-> t[i] - 48]

\* t: the text between prefix and suffix of a number
NumberOk(l, t) ==
    LET u == IF t # << >> /\ t[1] = 45 THEN Tail(t) ELSE t
        ip == IF l.dec = 0 THEN u ELSE SubSeq(u, 1, Len(u) - l.dec - 1)     \* in front of the point
        fp == IF l.dec = 0 THEN << >> ELSE From(u, Len(u) - l.dec + 1)
        got == StripZeros(Digits(ip \o fp))
    IN  /\ (u # t) = l.neg
        /\ Len(u) >= (IF l.dec = 0 THEN 1 ELSE l.dec + 2)
        /\ l.dec > 0 => u[Len(u) - l.dec] = 46
        /\ IsDigits(ip) /\ IsDigits(fp)
        /\ Len(ip) > 1 => ip[1] # 48
        /\ IF Len(l.digits) <= 15 THEN got = l.digits
           ELSE Len(Distance(got, l.digits)) <= Len(l.digits) - 14

LineOk(l, t) ==
    IF l.k = "text" THEN t = l.pre
    ELSE /\ Len(t) >= Len(l.pre) + Len(l.post) + 1
         /\ IsPrefix(l.pre, t)
         /\ From(t, Len(t) - Len(l.post) + 1) = l.post
         /\ LET m == SubSeq(t, Len(l.pre) + 1, Len(t) - Len(l.post))
            IN  IF l.k = "num" THEN NumberOk(l, m)
                ELSE IsDigits(m) /\ (l.dec >= 0 => m = l.digits)
=============================================================================
