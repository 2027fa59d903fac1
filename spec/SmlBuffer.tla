------------------------------ MODULE SmlBuffer ------------------------------
(***************************************************************************)
(* A buffer as the functions see it that work on it directly: its content, *)
(* a cursor and an error flag, [b, cur, err].  Everything is written at    *)
(* the cursor and read at the cursor.                                      *)
(*                                                                         *)
(* The size of a buffer that is written grows as it likes, and what is     *)
(* behind the cursor after it has grown is not defined.  After an error    *)
(* the cursor is somewhere in the buffer; the error stays.                 *)
(***************************************************************************)
EXTENDS SmlParser, SmlWriter

----------------------------------------------------------------------------
(* Long octet strings are recorded as runs: <<6, byte, count, ...>>        *)

ExpandTok(t) == IF t[1] = 6 THEN << 1 >> \o Unrle(t) ELSE t
Expand(ts) == IF \E i \in 1..Len(ts) : ts[i][1] = 6
              THEN [i \in 1..Len(ts) |-> ExpandTok(ts[i])] ELSE ts
UnrleBytes(s) == Concat([i \in 1..(Len(s) \div 2) |-> Rep(s[2 * i], s[2 * i - 1])])

----------------------------------------------------------------------------

Flag(b) == IF b THEN 1 ELSE 0

Loaded(bytes) == [b |-> bytes, cur |-> 0, err |-> 0]

AtEnd(s) == s.cur >= Len(s.b)
Here(s) == s.b[s.cur + 1]

RawKeys == {"len", "cur", "err", "b"}
RawOf(r) == [b |-> r.b, cur |-> r.cur, err |-> r.err]
Sane(r) == r.len = Len(r.b) /\ r.cur \in 0..r.len /\ r.err \in 0..1

\* w was written
Wrote(s, r, w) ==
    LET n == s.cur + Len(w)
    IN  /\ Sane(r) /\ r.cur = n /\ r.err = s.err
        /\ r.len >= Len(s.b)
        /\ SubSeq(r.b, 1, n) = SubSeq(s.b, 1, s.cur) \o w
        /\ r.len = Len(s.b) => From(r.b, n + 1) = From(s.b, n + 1)

\* there is room for n bytes, and nothing is lost
Reserved(s, r, n) ==
    /\ Sane(r) /\ r.cur = s.cur /\ r.err = s.err
    /\ r.len >= Max2(Len(s.b), s.cur + n)
    /\ IsPrefix(s.b, r.b)

\* it was read; the content stays, and so does an error
Kept(s, r) == Sane(r) /\ r.b = s.b /\ r.err >= s.err

\* read up to cur, without an error
Ok(s, r, cur) == Kept(s, r) /\ r.cur = cur /\ r.err = s.err

ReadType(s, r) == IF AtEnd(s) THEN Kept(s, r) /\ r.err = 1
                  ELSE Ok(s, r, s.cur) /\ r.ret = TypeOf(Here(s))

ReadLength(s, r) ==
    LET h == Header(s.b, s.cur + 1)
    IN  IF h.ok /\ h.len >= 0 THEN Ok(s, r, h.nx - 1) /\ r.ret = h.len
        ELSE Kept(s, r) /\ (r.err = 1 \/ (h.ok /\ r.ret < 0))

ReadSkip(s, r) ==
    IF AtEnd(s) THEN Kept(s, r) /\ r.cur = s.cur /\ r.ret # 1
    ELSE IF Here(s) = 1 THEN Ok(s, r, s.cur + 1) /\ r.ret = 1
    ELSE Ok(s, r, s.cur) /\ r.ret = 0

ReadByte(s, r) == Ok(s, r, s.cur) /\ r.ret = Here(s)
Advance(s, r, n) == Ok(s, r, s.cur + n)

ReadObject(s, r, g, z) ==
    LET p == Parse(s.b, s.cur + 1, g, z)
    IN  /\ Kept(s, r)
        /\ s.err = 0 =>
             IF p.err \/ p.drop THEN r.null = 1 /\ r.err = Flag(p.err)
             ELSE r.err = 0 /\ r.cur = p.pos - 1 /\ Expand(r.toks) = p.out /\ r.null = Flag(p.out = << NIL >>)

----------------------------------------------------------------------------
(* One implementation of it, with which the generator works out histories; *)
(* a result is the state and what was returned, or the object.             *)

Grow(b, n) == IF n <= Len(b) THEN b ELSE b \o Rep(2 * n - Len(b), 0)

Put1(s, w) ==
    LET n == s.cur + Len(w)
        b == Grow(s.b, n)
    IN  [s EXCEPT !.b = SubSeq(b, 1, s.cur) \o w \o From(b, n + 1), !.cur = n]

Result(s, ret) == [len |-> Len(s.b), cur |-> s.cur, err |-> s.err, b |-> s.b, ret |-> ret, null |-> 1, toks |-> << NIL >>]
Failed(s) == Result([s EXCEPT !.err = 1], -1)

DoLength(s) ==
    LET h == Header(s.b, s.cur + 1)
    IN  IF h.ok /\ h.len >= 0 THEN Result([s EXCEPT !.cur = h.nx - 1], h.len) ELSE Failed(s)
DoType(s) == IF AtEnd(s) THEN Failed(s) ELSE Result(s, TypeOf(Here(s)))
DoSkip(s) == IF AtEnd(s) THEN Failed(s) ELSE IF Here(s) = 1 THEN Result([s EXCEPT !.cur = @ + 1], 1) ELSE Result(s, 0)
DoParse(s, g) ==
    LET p == Parse(s.b, s.cur + 1, g, {})
    IN  IF p.err \/ p.drop THEN [Failed(s) EXCEPT !.err = Flag(p.err)]
        ELSE [Result([s EXCEPT !.cur = p.pos - 1], 0) EXCEPT !.toks = p.out, !.null = Flag(p.out = << NIL >>)]
=============================================================================
