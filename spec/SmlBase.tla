------------------------------- MODULE SmlBase -------------------------------
(***************************************************************************)
(* Bytes, numbers as byte strings, and checksums.                          *)
(*                                                                         *)
(* TLC integers are 32 bit, SML integers are up to 64 bit: every number is *)
(* represented as the sequence of its bytes, most significant first.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Byte == 0..255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the sequence of n times x
Rep(n, x) == [i \in 1..n |-> x]

\* s with every element in front of position i (1-based, i may be Len(s)+1) removed
From(s, i) == SubSeq(s, i, Len(s))

\* the first of the positions from, from + step, .. up to last that satisfies Is, or 0; in
\* blocks, as TLC gets slow deep in a recursion
Steps == [i \in 1..64 |-> i - 1]
RECURSIVE FirstOf(_, _, _, _)
FirstOf(Is(_), from, last, step) ==
    IF from > last THEN 0
    ELSE LET near(f) == FoldLeft(LAMBDA a, i : IF a > 0 \/ f + i * step > last THEN a
                                               ELSE IF Is(f + i * step) THEN f + i * step ELSE 0, 0, Steps)
             r == FoldLeft(LAMBDA a, j : IF a > 0 \/ from + j * 64 * step > last THEN a
                                         ELSE near(from + j * 64 * step), 0, Steps)
         IN  IF r > 0 THEN r ELSE FirstOf(Is, from + 4096 * step, last, step)

\* concatenation of a sequence of sequences
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)

----------------------------------------------------------------------------
(* CRC-16 with the reflected polynomial 0x1021 (= 0x8408), bit by bit.     *)

Poly == 33800

CrcBit(c) == IF c % 2 = 1 THEN (c \div 2) ^^ Poly ELSE c \div 2

\* The register after shifting one byte value through it; a constant table.
CrcTable == [b \in Byte |->
               CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(b))))))))]

CrcRun(init, s) ==
    FoldLeft(LAMBDA c, b : (c \div 256) ^^ CrcTable[(c ^^ b) % 256], init, s)

Swap16(c) == (c % 256) * 256 + (c \div 256)

\* CRC-16/X.25: as transmitted, low byte first, i.e. bytes exchanged.
X25(s) == Swap16(65535 - CrcRun(65535, s))

\* CRC-16/Kermit
Kermit(s) == CrcRun(0, s)

U16Bytes(c) == << c \div 256, c % 256 >>

----------------------------------------------------------------------------
(* Numbers as byte strings.                                                *)

\* widen a big-endian number of Len(s) <= w bytes to w bytes
Widen(s, w, signed) ==
    IF Len(s) = w THEN s
    ELSE Rep(w - Len(s), IF signed /\ Len(s) > 0 /\ s[1] >= 128 THEN 255 ELSE 0) \o s

\* the smallest standard width that holds n bytes, 0 if there is none
Width(n) == IF n <= 1 THEN 1 ELSE IF n <= 2 THEN 2 ELSE IF n <= 4 THEN 4
            ELSE IF n <= 8 THEN 8 ELSE 0

\* big-endian comparison of equally long numbers
RECURSIVE LeqAt(_, _, _)
LeqAt(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] < b[i] THEN TRUE
                  ELSE IF a[i] > b[i] THEN FALSE
                  ELSE LeqAt(a, b, i + 1)
Leq(a, b) == LeqAt(a, b, 1)
=============================================================================
