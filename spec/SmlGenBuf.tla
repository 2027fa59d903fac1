------------------------------ MODULE SmlGenBuf ------------------------------
(***************************************************************************)
(* Histories of one buffer that is worked on directly: items are written   *)
(* (headers, absent fields, bytes, whole objects), with room reserved and  *)
(* bytes patched in between; the buffer is cut to what was written and     *)
(* read again, item by item, and beyond its end.  Or it is loaded with     *)
(* bytes and read in any way, up to and beyond the first error.            *)
(*                                                                         *)
(* TLC checks that the operations of SmlBuffer as functions satisfy them   *)
(* as relations (Admitted), and that an item reads back as what was        *)
(* written, wherever it stands (ReadsBack).                                *)
(***************************************************************************)
EXTENDS SmlBuffer, Json, IOUtils

\* mode "all": every history of writes up to len; "rnd": long ones; "any": loaded bytes
P == ndJsonDeserialize(IOEnv.PARAMS)[1]

Rand(r) == (r * 75 + 74) % 65537
Pick(s, r) == s[1 + ((r \div 3) % Len(s))]

Objects == [i \in 1..Len(P.pool) |-> [x |-> "obj", g |-> P.pool[i].g, t |-> P.pool[i].t]]
Hd(t, n) == [x |-> "hdr", type |-> t, len |-> n]
Bytes(w) == [x |-> "put", w |-> w]

Items == << Hd(0, 0), Hd(112, 0), Hd(112, 15), Hd(112, 16), Hd(0, 14), Hd(96, 15), [x |-> "opt"],
            Bytes(<< >>), Bytes(<< 1 >>), Bytes(<< 1, 0, 255 >>), Bytes(Rep(17, 27)) >> \o Objects
More == << Hd(112, 255), Hd(112, 256), Hd(0, 253), Hd(64, 254), Hd(80, 4091), Hd(96, 4092), Hd(0, 65530), Hd(112, 65536),
           Bytes([i \in 1..70 |-> i]), Bytes(<< 131, 2 >>) >> \o Items

ItemBytes(x) == CASE x.x = "hdr" -> Hdr(x.type, x.len)
                  [] x.x = "opt" -> << 1 >>
                  [] x.x = "put" -> x.w
                  [] x.x = "obj" -> EncodeGoal(x.g, x.t)

Sizes == << 0, 1, 2, 16, 64 >>
ReadGoals == << "oct", "bool", "u8", "u32", "u64", "i8", "i64", "value", "status", "time", "list", "tree", "path", "msg",
            "period", "octseq" >>

VARIABLES ops,   \* what was done
          s,     \* the buffer
          items, \* what was written, and at which position each item begins
          phase, \* "write", "read", "beyond", "done"
          at,    \* the item that is read next; after an error: operations left
          last,  \* the last step: [s, r, and its kind]
          fine,  \* everything read back
          rnd
vars == << ops, s, items, phase, at, last, fine, rnd >>

RECURSIVE Draw(_, _, _)
Draw(xs, n, r) == IF n = 0 THEN xs ELSE Draw(Append(xs, Pick(More, r)), n - 1, Rand(Rand(r + n)))

None == [k |-> "none"]

Init ==
    /\ fine = TRUE /\ items = << >> /\ last = None
    /\ \/ /\ P.mode = "all" /\ rnd = 0 /\ at = 0 /\ phase = "write"
          /\ \E i \in 1..3 : s = Loaded(Rep(Sizes[i], 0)) /\ ops = << [op |-> "rnew", q |-> 1, size |-> Sizes[i], fill |-> 90] >>
       \/ /\ P.mode = "rnd" /\ at = 0 /\ phase = "write"
          /\ \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
          /\ LET n == Pick(Sizes, Rand(rnd))
             IN  s = Loaded(Rep(n, 0)) /\ ops = << [op |-> "rnew", q |-> 1, size |-> n, fill |-> (rnd \div 5) % 256] >>
       \/ /\ P.mode = "any" /\ phase = "beyond"
          /\ \E i \in 1..P.count :
               /\ rnd = ((P.seed % 997) * 61 + i * 13) % 65536
               /\ LET r1 == Rand(rnd) r2 == Rand(r1) r3 == Rand(r2) r4 == Rand(r3)
                      xs == Draw(<< >>, 1 + (r1 % 9), r2)
                      n == Len(xs)
                      a == Concat([j \in 1..n |-> ItemBytes(xs[j])])
                      \* the beginning of one of the last items; the end, or somewhere in it
                      from == Len(Concat([j \in 1..(n - 1 - (r3 % Min2(n, 2))) |-> ItemBytes(xs[j])]))
                      end == IF r4 % 4 = 0 THEN Len(a) ELSE from + ((r4 \div 4) % (Len(a) - from + 1))
                      c == SubSeq(a, 1, end)
                      d == IF c = << >> \/ r4 % 3 # 0 THEN c
                           ELSE [c EXCEPT ![1 + ((r3 \div 7) % Len(c))] = (r1 \div 7) % 256]
                      x == xs[n - (r3 % Min2(n, 2))]
                      load == << [op |-> "rload", q |-> 1, in |-> d], [op |-> "radv", q |-> 1, n |-> from] >>
                      there == [Loaded(d) EXCEPT !.cur = from]
                  IN  IF x.x = "obj" /\ (r1 \div 11) % 3 > 0
                      THEN LET p == DoParse(there, x.g)
                           IN  /\ ops = load \o << [op |-> "rparse", q |-> 1, g |-> x.g, k |-> 1] >>
                               /\ s = RawOf(p) /\ at = (IF p.err = 1 THEN 2 ELSE IF p.cur = from THEN 0 ELSE P.len)
                      ELSE s = there /\ ops = load /\ at = P.len

\* a step with its result
Did(o, k, r) == /\ ops' = ops \o o /\ last' = [k |-> k, s |-> s, o |-> o[Len(o)], r |-> r] /\ s' = RawOf(r)

Slot == 1 + (Len(ops) % 60)
WriteOps(x) ==
    CASE x.x = "hdr" -> << [op |-> "rhdr", q |-> 1, type |-> x.type, len |-> x.len] >>
      [] x.x = "opt" -> << [op |-> "ropt", q |-> 1] >>
      [] x.x = "put" -> << [op |-> "rput", q |-> 1, in |-> x.w] >>
      [] x.x = "obj" -> << [op |-> "build", g |-> x.g, k |-> Slot, toks |-> x.t], [op |-> "rwrite", k |-> Slot, q |-> 1] >>

Write(x) ==
    /\ Did(WriteOps(x), "write", Result(Put1(s, ItemBytes(x)), 0))
    /\ items' = Append(items, [at |-> s.cur, x |-> x])
    /\ UNCHANGED << phase, at, fine >>

Reserve(n) ==
    /\ Did(<< [op |-> "reserve", q |-> 1, n |-> n] >>, "reserve", Result([s EXCEPT !.b = Grow(@, s.cur + n)], 0))
    /\ UNCHANGED << items, phase, at, fine >>

\* other bytes in place of those of item j
Patch(j, d) ==
    LET it == items[j]
        w == [i \in 1..Len(it.x.w) |-> (it.x.w[i] + d + i) % 256]
        there == [s EXCEPT !.cur = it.at]
        done == Put1(there, w)
    IN  /\ it.x.x = "put"
        /\ ops' = ops \o << [op |-> "rset", q |-> 1, cur |-> it.at], [op |-> "rput", q |-> 1, in |-> w],
                            [op |-> "rset", q |-> 1, cur |-> s.cur] >>
        /\ last' = [k |-> "write", s |-> there, o |-> [op |-> "rput", q |-> 1, in |-> w], r |-> Result(done, 0)]
        /\ s' = [done EXCEPT !.cur = s.cur]
        /\ items' = [items EXCEPT ![j].x.w = w]
        /\ UNCHANGED << phase, at, fine >>

Cut ==
    /\ ops' = Append(ops, [op |-> "rcut", q |-> 1])
    /\ s' = Loaded(SubSeq(s.b, 1, s.cur))
    /\ phase' = "read" /\ at' = 1 /\ last' = None
    /\ UNCHANGED << items, fine >>

Rd(o) == [op |-> o, q |-> 1]

\* item j is read: the operations, the buffer behind it, and whether it is what was written
ReadItem(j, r) ==
    LET x == items[j].x
        n == Len(ItemBytes(x))
    IN  CASE x.x = "hdr" ->
               LET l == DoLength(s)
               IN  [ops |-> << Rd("rtype"), Rd("rlen") >>, r |-> l, k |-> "rlen",
                    fine |-> DoType(s).ret = x.type /\ l.ret = x.len /\ l.err = 0 /\ l.cur = s.cur + n]
          [] x.x = "opt" ->
               LET l == DoSkip(s)
               IN  [ops |-> (IF r % 2 = 0 THEN << Rd("rskip") >> ELSE << Rd("rtype"), Rd("rbyte"), Rd("rskip") >>), r |-> l, k |-> "rskip",
                    fine |-> l.ret = 1 /\ l.cur = s.cur + 1]
          [] x.x = "put" ->
               [ops |-> (IF n = 0 THEN << >> ELSE << Rd("rbyte") >>) \o << [op |-> "radv", q |-> 1, n |-> n] >>,
                r |-> Result([s EXCEPT !.cur = @ + n], 0), k |-> "radv",
                fine |-> SubSeq(s.b, s.cur + 1, s.cur + n) = x.w]
          [] x.x = "obj" ->
               LET l == DoParse(s, x.g)
                   try == IF x.t # << NIL >> /\ r % 3 = 0 THEN << Rd("rskip") >> ELSE << >>
               IN  [ops |-> try \o << [op |-> "rparse", q |-> 1, g |-> x.g, k |-> Slot] >>, r |-> l, k |-> "rparse",
                    fine |-> \/ l.err = 0 /\ l.cur = s.cur + n /\ EncodeGoal(x.g, l.toks) = ItemBytes(x)
                             \* an element of length 0 or an octet string that ends with the buffer: see SmlParser
                             \/ l.err = 1 /\ s.cur + n = Len(s.b)]

Read ==
    IF at > Len(items) THEN /\ phase' = "beyond" /\ at' = 3 /\ last' = None /\ UNCHANGED << ops, s, items, fine >>
    ELSE LET d == ReadItem(at, rnd)
         IN  /\ Did(d.ops, d.k, d.r) /\ fine' = (fine /\ d.fine)
             /\ IF d.r.err = 1 THEN phase' = "beyond" /\ at' = 2 ELSE phase' = phase /\ at' = at + 1
             /\ UNCHANGED items

\* any reads; where the buffer stands after an error is not known
Reads(r) ==
    LET g == Pick(ReadGoals, Rand(r))
        left == Len(s.b) - s.cur
    IN  CASE r % 7 \in {0, 1} -> [ops |-> << [op |-> "rparse", q |-> 1, g |-> g, k |-> Slot] >>, r |-> DoParse(s, g), k |-> "rparse"]
          [] r % 7 = 2 -> [ops |-> << Rd("rtype") >>, r |-> DoType(s), k |-> "rtype"]
          [] r % 7 = 3 -> [ops |-> << Rd("rlen") >>, r |-> DoLength(s), k |-> "rlen"]
          [] r % 7 = 4 -> [ops |-> << Rd("rskip") >>, r |-> DoSkip(s), k |-> "rskip"]
          [] r % 7 \in {5, 6} -> IF s.err = 1 \/ left = 0
                            THEN [ops |-> << Rd("rtype") >>, r |-> DoType(s), k |-> "rtype"]
                            ELSE LET n == 1 + ((r \div 7) % Min2(left, 4))
                                 IN  [ops |-> << Rd("rbyte"), [op |-> "radv", q |-> 1, n |-> n] >>,
                                      r |-> Result([s EXCEPT !.cur = @ + n], 0), k |-> "radv"]

Beyond ==
    IF at = 0 THEN /\ phase' = "done"
                   /\ ops' = Append(ops, Rd("rfree")) /\ last' = None /\ UNCHANGED << s, items, at, fine >>
    ELSE LET d == Reads(IF P.mode = "all" THEN Len(ops) + Len(s.b) + 5 * at ELSE rnd)
         IN  /\ Did(d.ops, IF s.err = 1 THEN "none" ELSE d.k, d.r) /\ phase' = phase
             \* where the cursor is behind a message that was dropped is not known, nor after an error
             /\ at' = (IF s.err = 0 /\ d.r.err = 1 THEN 2
                       ELSE IF s.err = 0 /\ d.k = "rparse" /\ d.r.cur = s.cur THEN 0 ELSE at - 1)
             /\ UNCHANGED << items, fine >>

Next ==
    /\ phase # "done"
    /\ rnd' = Rand(Rand(rnd + Len(ops)))
    /\ CASE phase = "write" ->
              IF P.mode = "all"
              THEN \/ Len(items) < P.len /\ \E i \in 1..Len(Items) : Write(Items[i])
                   \/ Len(items) < P.len /\ last.k # "reserve" /\ \E n \in {IF P.len < 3 THEN 20 ELSE 1} : Reserve(n)
                   \/ items # << >> /\ Cut
              ELSE LET r1 == Rand(rnd) r2 == Rand(r1)
                       j == 1 + ((r2 \div 3) % Max2(1, Len(items)))
                   IN  IF Len(items) >= P.len \/ r1 % 23 = 0 THEN Cut
                       ELSE IF r1 % 5 = 1 THEN Reserve((r2 \div 3) % 90)
                       ELSE IF r1 % 5 = 2 /\ items # << >> /\ items[j].x.x = "put" THEN Patch(j, 1 + (r2 % 200))
                       ELSE Write(Pick(More, r2))
         [] phase = "read" -> Read
         [] phase = "beyond" -> Beyond

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

Admitted ==
    CASE last.k = "write" -> \E n \in {Len(last.r.b)} : Wrote(last.s, last.r, SubSeq(last.r.b, last.s.cur + 1, last.r.cur))
      [] last.k = "reserve" -> Reserved(last.s, last.r, last.o.n)
      [] last.k = "rtype" -> ReadType(last.s, last.r)
      [] last.k = "rlen" -> ReadLength(last.s, last.r)
      [] last.k = "rskip" -> ReadSkip(last.s, last.r)
      [] last.k = "radv" -> Advance(last.s, last.r, last.o.n)
      [] last.k = "rparse" -> ReadObject(last.s, last.r, last.o.g, {})
      [] OTHER -> TRUE

ReadsBack == fine

\* what is in the buffer is what was written
Holds == phase = "write" => \A j \in 1..Len(items) :
           SubSeq(s.b, items[j].at + 1, items[j].at + Len(ItemBytes(items[j].x))) = ItemBytes(items[j].x)

Emit == phase = "done" => PrintT(ToJson([ops |-> ops]))
=============================================================================
