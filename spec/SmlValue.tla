------------------------------ MODULE SmlValue -------------------------------
(* Conversions of single values: double, text, hex text. *)
EXTENDS SmlGrammar

----------------------------------------------------------------------------
(* Integers to IEEE 754 binary64, round to nearest, ties to even, on bits. *)

ByteBits(b) == << b \div 128, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
                  (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2 >>
Bits(bytes) == Concat([i \in 1..Len(bytes) |-> ByteBits(bytes[i])])

BitsByte(s) == ((((((s[1] * 2 + s[2]) * 2 + s[3]) * 2 + s[4]) * 2 + s[5]) * 2 + s[6]) * 2
                + s[7]) * 2 + s[8]
BitsBytes(s) == [i \in 1..(Len(s) \div 8) |-> BitsByte(SubSeq(s, 8 * i - 7, 8 * i))]

\* s + 1, one bit longer
IncBits(s) ==
    FoldRight(LAMBDA b, a : << (b + a[1]) \div 2, << (b + a[1]) % 2 >> \o a[2] >>,
              s, << 1, << >> >>)
Inc(s) == LET r == IncBits(s) IN << r[1] >> \o r[2]
Neg(s) == Tail(Inc([i \in 1..Len(s) |-> 1 - s[i]]))

RECURSIVE Strip(_)
Strip(s) == IF s # << >> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s

Exp11(e) == [i \in 1..11 |-> (e \div (2^(11 - i))) % 2]

DoubleBits(t, bytes) ==
    LET raw == Bits(bytes)
        neg == t = TInt /\ raw[1] = 1
        mag == Strip(IF neg THEN Neg(raw) ELSE raw)
        n == Len(mag)
        sig == IF n <= 53 THEN mag \o Rep(53 - n, 0) ELSE SubSeq(mag, 1, 53)
        guard == n > 53 /\ mag[54] = 1
        sticky == \E i \in 55..n : mag[i] = 1
        up == guard /\ (sticky \/ sig[53] = 1)
        inc == Inc(sig)
        carry == up /\ inc[1] = 1
        m == IF up THEN (IF carry THEN SubSeq(inc, 1, 53) ELSE Tail(inc)) ELSE sig
    IN  IF n = 0 THEN Rep(8, 0)
        ELSE BitsBytes(<< IF neg THEN 1 ELSE 0 >>
                       \o Exp11(1023 + n - 1 + (IF carry THEN 1 ELSE 0)) \o Tail(m))

\* results that are right for the conversion of a value token
DoubleOk(tok, bits) ==
    IF tok[1] = 3 THEN bits = DoubleBits(tok[2], SubSeq(tok, 3, Len(tok)))
    ELSE bits \in { Rep(8, 0), << 128 >> \o Rep(7, 0) }

----------------------------------------------------------------------------
(* Text *)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexByte(b) == << HexDigit(b \div 16), HexDigit(b % 16), 32 >>

Printable(b) == b \in 33..122

\* length of the leading run of printable bytes
RunLen(bs) ==
    LET e == FirstOf(LAMBDA i : ~Printable(bs[i]), 1, Len(bs), 1)
    IN  IF e = 0 THEN Len(bs) ELSE e - 1

StrHex(bs, mixed) ==
    LET n == IF mixed THEN RunLen(bs) ELSE 0
    IN  SubSeq(bs, 1, n)
        \o [i \in 1..(3 * (Len(bs) - n)) |-> HexByte(bs[n + 1 + ((i - 1) \div 3)])[1 + ((i - 1) % 3)]]

\* upper-case digits, two for each byte
HexDigits(bs) ==
    LET d(n) == IF n < 10 THEN 48 + n ELSE 55 + n
    IN  [i \in 1..(2 * Len(bs)) |-> LET b == bs[(i + 1) \div 2] IN d(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55

FromHex(text) ==
    IF Len(text) % 2 = 1 THEN NIL
    ELSE OCT([i \in 1..(Len(text) \div 2) |-> HexVal(text[2 * i - 1]) * 16 + HexVal(text[2 * i])])
=============================================================================
