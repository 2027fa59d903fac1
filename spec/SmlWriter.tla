------------------------------ MODULE SmlWriter ------------------------------
(***************************************************************************)
(* Encoding: the wire form of a token sequence.                            *)
(***************************************************************************)
EXTENDS SmlGrammar

\* least number of header bytes k such that v fits, where every further
\* header byte adds inc to v
RECURSIVE HdrBytes(_, _, _)
HdrBytes(v, k, inc) == IF k >= 8 \/ v \div (2^(4 * Min2(k, 7))) = 0 THEN k
                       ELSE HdrBytes(v + inc, k + 1, inc)

\* header of type t and length l: the shortest one; for everything but lists
\* the length counts the header bytes
Hdr(t, l) ==
    LET inc == IF t = TList THEN 0 ELSE 1
        k == HdrBytes(l + inc, 1, inc)
        v == l + inc * k
    IN  [i \in 1..k |-> (IF i = 1 THEN t ELSE 0) + (IF i < k THEN 128 ELSE 0)
                        + ((v \div (2^(4 * (k - i)))) % 16)]

Unrle(t) == Concat([i \in 1..((Len(t) - 1) \div 2) |-> Rep(t[2 * i + 1], t[2 * i])])

EncodeTok(t) ==
    CASE t[1] = 0 -> << 1 >>
      [] t[1] = 1 -> Hdr(TOct, Len(t) - 1) \o SubSeq(t, 2, Len(t))
      [] t[1] = 2 -> << 66, IF t[2] = 0 THEN 0 ELSE 255 >>
      [] t[1] = 3 -> Hdr(t[2], Len(t) - 2) \o SubSeq(t, 3, Len(t))
      [] t[1] = 4 -> Hdr(TList, t[2])

\* concatenation in log depth: linear appends would be quadratic for long lists
RECURSIVE EncodeRange(_, _, _)
EncodeRange(ts, a, b) ==
    IF a > b THEN << >> ELSE IF a = b THEN EncodeTok(ts[a])
    ELSE LET m == (a + b) \div 2 IN EncodeRange(ts, a, m) \o EncodeRange(ts, m + 1, b)

Encode(ts) == EncodeRange(ts, 1, Len(ts))

\* a message: its last token is the checksum, which is always computed anew
MsgBody(ts) == Encode(SubSeq(ts, 1, Len(ts) - 1))
CrcTok(bytes) == NUM(TUint, U16Bytes(X25(bytes)))
EncodeMsg(ts) == LET b == MsgBody(ts) IN b \o EncodeTok(CrcTok(b)) \o << 0 >>

EncodeGoal(g, ts) == IF g = "msg" THEN EncodeMsg(ts) ELSE Encode(ts)

\* the tokens of an object after it was encoded: a message has its checksum set
Written(g, ts) == IF g = "msg" THEN [ts EXCEPT ![Len(ts)] = CrcTok(MsgBody(ts))] ELSE ts

EncodeFile(msgs) == Concat([i \in 1..Len(msgs) |-> EncodeMsg(msgs[i])])

----------------------------------------------------------------------------
(* Transport version 1 *)

EscSeq == << 27, 27, 27, 27 >>
StartSeq == EscSeq \o << 1, 1, 1, 1 >>

Frame1(payload) ==
    LET pad == (4 - (Len(payload) % 4)) % 4
        b == StartSeq \o payload \o Rep(pad, 0) \o EscSeq \o << 26, pad >>
    IN  b \o U16Bytes(X25(b))

----------------------------------------------------------------------------
(* Equality by value: an empty octet string equals an absent one *)

NormTok(t) == IF t = << 1 >> THEN NIL ELSE t
Norm(ts) == [i \in 1..Len(ts) |-> NormTok(ts[i])]
=============================================================================
