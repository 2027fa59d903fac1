------------------------------- MODULE SmlApi --------------------------------
(***************************************************************************)
(* The public interface of libsml as a state machine.                      *)
(*                                                                         *)
(* The abstract state st:                                                  *)
(*   st.slot   the live objects: slot number -> [g, toks]; a file is       *)
(*             [g |-> "file", runs], its messages as maximal runs          *)
(*             <<count, tokens>> of equal neighbours                       *)
(*   st.buf    the live buffers: number -> their cursor                    *)
(*   st.raw    the buffers that are worked on directly (see SmlBuffer)      *)
(*   st.ids    transaction ids of the messages created so far              *)
(*                                                                         *)
(* An operation o (a record: its name and its arguments) in state st may   *)
(* have result r iff Allowed(o, r, st, z); the state is then               *)
(* After(o, r, st, z).  A record of a crash or a hang lacks the fields     *)
(* that are asked for, and is never allowed.                               *)
(***************************************************************************)
EXTENDS SmlBuffer, SmlValue

T == INSTANCE SmlTransport WITH G <- 4, Esc <- 27, One <- 1, End <- 26

InitState == [slot |-> << >>, buf |-> << >>, raw |-> << >>, ids |-> {}]

Has(r, keys) == keys \subseteq DOMAIN r

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

PutSlot(st, k, v) == [st EXCEPT !.slot = Put(@, k, v)]
PutObj(st, k, g, toks) == PutSlot(st, k, [g |-> g, toks |-> toks])
DelSlot(st, k) == [st EXCEPT !.slot = Del(@, k)]

Some(toks) == toks # << NIL >>

----------------------------------------------------------------------------
(* Messages of a file, as runs                                             *)

AddRun(runs, n, toks) ==
    IF n = 0 THEN runs
    ELSE IF runs # << >> /\ runs[Len(runs)][2] = toks
    THEN [runs EXCEPT ![Len(runs)][1] = @ + n]
    ELSE Append(runs, << n, toks >>)
Runs(msgs) == FoldLeft(LAMBDA a, m : AddRun(a, 1, m), << >>, msgs)
RunsTotal(runs) == FoldLeft(LAMBDA a, x : a + x[1], 0, runs)
\* after every message was encoded
WrittenRuns(runs) ==
    FoldLeft(LAMBDA a, x : AddRun(a, x[1], Written("msg", x[2])), << >>, runs)
EncodeRuns(runs) ==
    Concat([i \in 1..Len(runs) |->
              LET m == EncodeMsg(runs[i][2]) IN Concat([j \in 1..runs[i][1] |-> m])])
RunsRes(r) == [i \in 1..Len(r) |-> << r[i][1], Expand(r[i][2]) >>]

\* n copies of the same bytes in a row, all messages intact
FileResult(o, z) ==
    LET f == ParseFile(o.in, z)
        runs == Runs(f.msgs)
    IN  IF o.rep = 1 THEN [runs |-> runs, err |-> f.err]
        ELSE [runs |-> IF f.err \/ runs = << >> THEN runs
                       ELSE << << runs[1][1] * o.rep, runs[1][2] >> >>, err |-> f.err]

----------------------------------------------------------------------------
(* Reading from a descriptor.  Interrupts and short reads (kinds 0, 1, 2,  *)
(* 5) change nothing; a failure or an end (kinds 3, 4) at some position    *)
(* happens as often as it says, to a read that needs the byte there.       *)

Hard(ev) == SelectSeq(ev, LAMBDA v : v[2] \in {3, 4} /\ v[3] > 0)

\* last readable position for a read from p on
Limit(in, hard, p) ==
    FoldLeft(LAMBDA a, v : IF v[1] + 1 >= p THEN Min2(a, v[1]) ELSE a, Len(in), hard)

UseUp(hard, at) ==
    LET dec == [i \in 1..Len(hard) |->
                  IF hard[i][1] = at /\ \A j \in 1..(i - 1) : hard[j][1] # at
                  THEN [hard[i] EXCEPT ![3] = @ - 1] ELSE hard[i]]
    IN  SelectSeq(dec, LAMBDA v : v[3] > 0)

RECURSIVE CallsOk(_, _, _, _, _)
CallsOk(o, calls, i, p, hard) ==
    IF i > Len(calls) THEN i = o.calls + 1
    ELSE LET c == calls[i]
             e == Limit(o.in, hard, p)
             f == T!Find(o.in, e, p)
         IN  /\ T!ReadOk(o.in, e, p, o.max, c.ret, c.bytes, c.pos + 1)
             /\ CallsOk(o, calls, i + 1, c.pos + 1,
                        IF f.kind = "open" /\ o.max >= 8 /\ c.pos = e THEN UseUp(hard, e) ELSE hard)

\* calls on a pipe, whose position is not recorded
RECURSIVE PipeOk(_, _, _, _)
PipeOk(o, r, i, p) ==
    IF i > Len(r.calls) THEN i = o.calls + 1 /\ r.rest = From(o.in, p)
    ELSE LET c == r.calls[i]
             f == T!Find(o.in, Len(o.in), p)
             next == IF c.ret > 0 THEN {f.z + 1}
                     ELSE IF f.q = 0 THEN {Len(o.in) + 1} ELSE f.q..(f.z + 1)
         IN  \E p2 \in next :
               /\ T!ReadOk(o.in, Len(o.in), p, o.max, c.ret, c.bytes, p2)
               /\ PipeOk(o, r, i + 1, p2)

ListenMax == 8096

\* listening delivers every frame up to the first that is broken; beyond the
\* size of its buffer it may or may not go on
ListenOk(o, r) ==
    LET e == Limit(o.in, Hard(o.ev), 1)
    IN  r.frames \in { T!Frames(o.in, e, 1, ListenMax), T!Frames(o.in, e, 1, 100000) }

\* n times the same, then something: read with a buffer of max bytes, or listened to.
\* Frames that are the same and follow each other are recorded once, with their number.
LrunOk(o, r) ==
    LET max == IF o.max = 0 THEN ListenMax ELSE o.max
        f == T!Frames(o.lead, Len(o.lead), 1, max)
        g == T!Frames(o.in, Len(o.in), 1, max)
    IN  /\ T!Idle(o.lead, 1, max) /\ Len(f) <= 1  \* otherwise the case is not one
        /\ r.runs = FoldLeft(LAMBDA a, x : AddRun(a, 1, x),
                             IF f = << >> THEN << >> ELSE << << o.n, f[1] >> >>, g)

----------------------------------------------------------------------------
(* Writing a file to a descriptor that takes at most lim bytes (-1: all,   *)
(* -2, -3, -4: it fails, would block, is interrupted).  Whoever tries      *)
(* again gets nowhere (more = 0) or can write the rest; trying again is    *)
(* not asked for, but then the frame has to be complete.                   *)

TwriteOk(o, r, runs) ==
    LET f == Frame1(EncodeRuns(runs))
        all == r.ret = Len(f) /\ r.bytes = f
        part == r.ret = 0 /\ IsPrefix(r.bytes, f) /\ Len(r.bytes) < Len(f)
    IN  IF o.lim = -1 \/ o.lim >= Len(f) THEN all
        ELSE IF o.more = 1 \/ o.lim = -4 THEN all \/ part ELSE part

(* Memory: what an input makes the library use is in proportion to its     *)
(* length, whatever numbers it announces.  An element of two bytes becomes *)
(* an object of some dozen bytes and a pointer to it.                      *)

MemOk(r, n) == "mem" \notin DOMAIN r \/ r.mem <= 65536 + 256 * n

----------------------------------------------------------------------------

Obj(st, k) == st.slot[k].toks
OctOf(t) == IF t[1] = 1 THEN SubSeq(t, 2, Len(t)) ELSE << >>

----------------------------------------------------------------------------
(* Adding to objects that exist.                                           *)

\* position behind the object that begins with token i
SubEnd(ts, i) ==
    LET step(a, j) == IF a[2] = 0 THEN a
                      ELSE << j + 1, a[2] - 1 + (IF ts[j][1] = 4 THEN ts[j][2] ELSE 0) >>
    IN  FoldLeft(step, << i, 1 >>, [n \in 1..(Len(ts) - i + 1) |-> i + n - 1])[1]

\* what may be added to an object
ElemGoal(g) == CASE g = "path" -> "oct" [] g = "tree" -> "tree" [] g = "list" -> "list"
                 [] g \in {"octseq", "hdrseq", "perseq", "valseq", "periodseq"} -> Containers[g].elem
                 [] OTHER -> "none"

\* position of the token that holds the number of elements
CountAt(g, ts) == IF g = "tree" THEN SubEnd(ts, SubEnd(ts, 2)) ELSE 1
Count(g, ts) == LET t == ts[CountAt(g, ts)] IN IF t = NIL THEN 0 ELSE t[2]
AddTo(g, ts, el) ==
    LET p == CountAt(g, ts)
        n == Count(g, ts)
    IN  IF g = "list" THEN << LST(n + el[1][2]) >> \o Tail(ts) \o Tail(el)
        ELSE [ts EXCEPT ![p] = LST(n + 1)] \o el

\* a message with another body
SetBody(ts, body) == SubSeq(ts, 1, 4) \o body \o From(ts, SubEnd(ts, 5))

\* tokens of a fresh object
Fresh(g) ==
    CASE g = "tree" -> << LST(3), NIL, NIL, NIL >>
      [] g = "path" -> << LST(0) >>
      [] g = "octseq" -> << LST(0) >>
      [] g = "list" -> << LST(1), LST(7), NIL, NIL, NIL, NIL, NIL, NIL, NIL >>
      [] g = "time" -> << LST(2), NIL, NIL >>
      [] OTHER -> << LST(Len(Fields[g])) >> \o Rep(Len(Fields[g]), NIL)

Allowed(o, r, st, z) ==
    CASE o.op = "parse" ->
           /\ Has(r, {"null", "err", "cur", "toks"})
           /\ r.cur \in 0..Len(o.in)
           /\ MemOk(r, Len(o.in))
           /\ LET p == Parse(o.in, 1, o.g, z)
              IN  IF p.err \/ p.drop
                  THEN r.null = 1 /\ r.toks = << NIL >> /\ r.err = Flag(p.err)
                  ELSE r.err = 0 /\ r.cur = p.pos - 1 /\ Expand(r.toks) = p.out
                       /\ r.null = Flag(~Some(p.out))
      [] o.op = "reparse" ->
           \* a message that was written is parsed; the bytes are recorded with it
           /\ Has(r, {"null", "err", "in", "toks"})
           /\ LET p == Parse(r.in, 1, "msg", z)
              IN  ~p.err /\ ~p.drop /\ r.err = 0 /\ r.null = 0 /\ r.toks = p.out
                  /\ p.pos = Len(r.in) + 1
      [] o.op = "idmsg" ->
           \* a message with the id it was created with
           /\ Has(r, {"toks"})
           /\ Len(r.toks) = Len(o.toks) /\ r.toks = [o.toks EXCEPT ![2] = r.toks[2]]
           /\ r.toks[2][1] = 1 /\ Len(r.toks[2]) = 17 /\ r.toks[2] \notin st.ids
      [] o.op = "file" ->
           /\ Has(r, {"err", "cur", "n", "msgs"})
           /\ r.cur \in 0..(Len(o.in) * o.rep)
           /\ MemOk(r, Len(o.in) * o.rep)
           /\ LET f == FileResult(o, z)
              IN  /\ RunsRes(r.msgs) = f.runs
                  /\ r.n = RunsTotal(f.runs)
                  /\ ~f.err => r.err = 0 /\ r.cur = Len(o.in) * o.rep
      [] o.op = "build" -> Has(r, {"toks"}) /\ Expand(r.toks) = Expand(o.toks)
      [] o.op = "init" ->
           IF o.g = "file" THEN Has(r, {"n", "msgs"}) /\ r.n = 0 /\ r.msgs = << >>
           ELSE IF o.g = "msg"
                THEN /\ Has(r, {"toks"})
                     /\ Len(r.toks) = 6 /\ r.toks[1] = LST(6) /\ SubSeq(r.toks, 3, 6) = Rep(4, NIL)
                     /\ r.toks[2][1] = 1 /\ Len(r.toks[2]) = 17
                     /\ r.toks[2] \notin st.ids
           ELSE Has(r, {"toks"}) /\ r.toks = Fresh(o.g)
      [] o.op = "dump" ->
           LET s == st.slot[o.k]
           IN  IF s.g = "file"
               THEN Has(r, {"n", "msgs"}) /\ RunsRes(r.msgs) = s.runs /\ r.n = RunsTotal(s.runs)
               ELSE Has(r, {"toks"}) /\ Expand(r.toks) = s.toks
      [] o.op \in {"free", "rewind", "freebuf", "print"} -> "crash" \notin DOMAIN r
      [] o.op = "heap" ->
           /\ Has(r, {"live", "badfree"})
           /\ r.badfree = 0
           /\ (DOMAIN st.slot = {} /\ DOMAIN st.buf = {} /\ DOMAIN st.raw = {}) => r.live = 0
      [] o.op = "survive" ->
           \* anything at all is parsed, printed, encoded and freed; used for inputs in
           \* such numbers that what they mean is not computed
           /\ Has(r, {"outside", "live", "badfree"})
           /\ r.outside = 0 /\ r.badfree = 0
           /\ MemOk(r, Len(o.in) + o.rep * Len(o.unit))
           /\ (DOMAIN st.slot = {} /\ DOMAIN st.buf = {} /\ DOMAIN st.raw = {}) => r.live = 0
      [] o.op = "absent" ->
           Has(r, {"bytes", "live", "badfree"}) /\ r.badfree = 0
           /\ r.bytes = (IF o.write = 1 THEN Encode(<< NIL >>) ELSE << >>)
      [] o.op = "newbuf" -> Has(r, {"len", "cur", "err"}) /\ r.len = o.size /\ r.cur = 0 /\ r.err = 0
      [] o.op = "write" ->
           /\ Has(r, {"from", "pre", "bytes"})
           /\ r.from = st.buf[o.q] /\ r.pre = 1
           /\ r.bytes = EncodeGoal(st.slot[o.k].g, Obj(st, o.k))
      [] o.op = "writer" ->
           /\ Has(r, {"from", "pre", "rle"})
           /\ r.from = st.buf[o.q] /\ r.pre = 1
           /\ UnrleBytes(r.rle) = EncodeGoal(st.slot[o.k].g, Obj(st, o.k))
      [] o.op = "addmsg" ->
           Has(r, {"n"}) /\ r.n = RunsTotal(st.slot[o.k].runs) + 1
      [] o.op = "add" ->
           /\ Has(r, {"n"})
           /\ r.n = LET s == st.slot[o.k] IN Count(s.g, AddTo(s.g, s.toks, Obj(st, o.m)))
      [] o.op = "setbody" -> "crash" \notin DOMAIN r
      [] o.op = "fwrite" -> Has(r, {"bytes"}) /\ r.bytes = EncodeRuns(st.slot[o.k].runs)
      [] o.op = "twrite" -> Has(r, {"ret", "bytes"}) /\ TwriteOk(o, r, st.slot[o.k].runs)
      [] o.op = "tread" -> Has(r, {"calls"}) /\ CallsOk(o, r.calls, 1, 1, Hard(o.ev))
      [] o.op = "preads" -> Has(r, {"calls", "rest"}) /\ PipeOk(o, r, 1, 1)
      [] o.op = "listen" -> Has(r, {"frames"}) /\ ListenOk(o, r)
      [] o.op = "lrun" -> Has(r, {"runs"}) /\ LrunOk(o, r)
      [] o.op = "crc" ->
           Has(r, {"x25", "kermit"}) /\ r.x25 = X25(o.in) /\ r.kermit = Kermit(o.in)
      [] o.op = "double" -> Has(r, {"bits"}) /\ DoubleOk(Obj(st, o.k)[1], r.bits)
      [] o.op = "strhex" ->
           /\ Has(r, {"null", "same", "text"})
           /\ r.same = 1
           /\ r.text = StrHex(OctOf(Obj(st, o.k)[1]), o.mixed = 1)
           /\ r.null = Flag(Obj(st, o.k)[1] = NIL)
      [] o.op = "fromhex" -> Has(r, {"toks"}) /\ Norm(r.toks) = Norm(<< FromHex(o.text) >>)
                             /\ (Len(o.text) % 2 = 0 => r.toks # << NIL >>)
      [] o.op = "hexrun" -> Has(r, {"eq", "rle"}) /\ r.rle = << o.byte, o.n >> /\ r.eq = 1
      [] o.op = "cmp" ->
           Has(r, {"eq"}) /\ r.eq = Flag(OctOf(Obj(st, o.a)[1]) = OctOf(Obj(st, o.b)[1]))
      [] o.op = "cmphex" ->
           /\ Has(r, {"eq"})
           /\ r.eq = Flag(Len(o.text) % 2 = 0 /\ OctOf(Obj(st, o.a)[1]) = OctOf(FromHex(o.text)))
      [] o.op = "ids" ->
           /\ Has(r, {"shape", "absent", "ids"})
           /\ r.shape = 1 /\ r.absent = 1 /\ Len(r.ids) = o.n
           /\ LET new == { OCT(r.ids[i]) : i \in 1..o.n }
              IN  Cardinality(new) = o.n /\ new \cap st.ids = {}
      [] o.op = "hdrw" ->
           /\ Has(r, {"bytes", "type", "len", "err", "cur"})
           /\ r.bytes = Hdr(o.type, o.len)
           /\ r.type = o.type /\ r.len = o.len /\ r.err = 0 /\ r.cur = Len(r.bytes)
      [] o.op = "hdrr" ->
           /\ Has(r, {"type", "terr", "len", "err", "cur"})
           /\ IF o.in = << >> THEN r.err = 1 /\ r.terr = 1
              ELSE LET h == Header(o.in, 1)
                   IN  /\ r.terr = 0 /\ r.type = TypeOf(o.in[1])
                       /\ IF h.ok /\ h.len >= 0
                          THEN r.err = 0 /\ r.len = h.len /\ r.cur = h.nx - 1
                          ELSE (r.err = 1 \/ (h.ok /\ r.len < 0)) /\ r.cur \in 0..Len(o.in)
      [] o.op = "opt" ->
           /\ Has(r, {"skipped", "err", "cur"})
           /\ IF o.in # << >> /\ o.in[1] = 1 THEN r.skipped = 1 /\ r.cur = 1 /\ r.err = 0
              ELSE r.skipped = 0 /\ r.cur = 0 /\ (o.in # << >> => r.err = 0)
      [] o.op = "rnew" -> Has(r, RawKeys) /\ Sane(r) /\ r.len = o.size /\ r.cur = 0 /\ r.err = 0
      [] o.op = "rload" -> Has(r, RawKeys) /\ Sane(r) /\ RawOf(r) = Loaded(o.in)
      [] o.op = "rcut" ->
           \* what was written, in a buffer of its own
           Has(r, RawKeys) /\ Sane(r) /\ RawOf(r) = LET s == st.raw[o.q] IN Loaded(SubSeq(s.b, 1, s.cur))
      [] o.op = "rset" -> Has(r, RawKeys) /\ Sane(r) /\ RawOf(r) = [st.raw[o.q] EXCEPT !.cur = o.cur]
      [] o.op = "rhdr" -> Has(r, RawKeys) /\ Wrote(st.raw[o.q], r, Hdr(o.type, o.len))
      [] o.op = "ropt" -> Has(r, RawKeys) /\ Wrote(st.raw[o.q], r, << 1 >>)
      [] o.op = "rput" -> Has(r, RawKeys) /\ Wrote(st.raw[o.q], r, o.in)
      [] o.op = "rwrite" ->
           Has(r, RawKeys) /\ Wrote(st.raw[o.q], r, EncodeGoal(st.slot[o.k].g, Obj(st, o.k)))
      [] o.op = "reserve" -> Has(r, RawKeys) /\ Reserved(st.raw[o.q], r, o.n)
      [] o.op = "rtype" -> Has(r, RawKeys \cup {"ret"}) /\ ReadType(st.raw[o.q], r)
      [] o.op = "rlen" -> Has(r, RawKeys \cup {"ret"}) /\ ReadLength(st.raw[o.q], r)
      [] o.op = "rskip" -> Has(r, RawKeys \cup {"ret"}) /\ ReadSkip(st.raw[o.q], r)
      [] o.op = "rbyte" -> Has(r, RawKeys \cup {"ret"}) /\ ReadByte(st.raw[o.q], r)
      [] o.op = "radv" -> Has(r, RawKeys) /\ Advance(st.raw[o.q], r, o.n)
      [] o.op = "rparse" -> Has(r, RawKeys \cup {"null", "toks"}) /\ ReadObject(st.raw[o.q], r, o.g, z)
      [] o.op = "rfree" -> "crash" \notin DOMAIN r
      [] o.op = "hexdump" ->
           \* every byte as two digits, whatever is between them
           /\ Has(r, {"text"})
           /\ SelectSeq(r.text, LAMBDA x : x \notin {10, 32}) = HexDigits(o.in)
           /\ r.text # << >> /\ r.text[Len(r.text)] = 10
      [] o.op = "bigadd" ->
           Has(r, {"n", "inplace"}) /\ r.n = o.n /\ r.inplace = o.n
      [] OTHER -> FALSE

\* the state after an allowed result; where Allowed has made sure that the result is
\* what the operation yields, it is taken from there
After(o, r, st, z) ==
    CASE o.op = "parse" ->
           IF r.null = 1 THEN st ELSE PutObj(st, o.k, o.g, Expand(r.toks))
      [] o.op = "reparse" -> PutObj(st, o.k, "msg", r.toks)
      [] o.op = "idmsg" -> [PutObj(st, o.k, "msg", r.toks) EXCEPT !.ids = @ \cup {r.toks[2]}]
      [] o.op = "file" -> PutSlot(st, o.k, [g |-> "file", runs |-> RunsRes(r.msgs)])
      [] o.op = "build" -> IF Some(o.toks) THEN PutObj(st, o.k, o.g, Expand(o.toks)) ELSE st
      [] o.op = "init" ->
           IF o.g = "file" THEN PutSlot(st, o.k, [g |-> "file", runs |-> << >>])
           ELSE IF o.g = "msg" THEN [PutObj(st, o.k, o.g, r.toks) EXCEPT !.ids = @ \cup {r.toks[2]}]
           ELSE PutObj(st, o.k, o.g, r.toks)
      [] o.op = "free" -> DelSlot(st, o.k)
      [] o.op = "newbuf" -> [st EXCEPT !.buf = Put(@, o.q, 0)]
      [] o.op = "rewind" -> [st EXCEPT !.buf[o.q] = 0]
      [] o.op = "freebuf" -> [st EXCEPT !.buf = Del(@, o.q)]
      [] o.op \in {"write", "writer"} ->
           LET s == st.slot[o.k]
               n == IF o.op = "write" THEN Len(r.bytes) ELSE Len(UnrleBytes(r.rle))
           IN  [st EXCEPT !.buf[o.q] = @ + n,
                          !.slot[o.k].toks = Written(s.g, s.toks)]
      [] o.op = "addmsg" ->
           DelSlot([st EXCEPT !.slot[o.k].runs = AddRun(@, 1, Obj(st, o.m))], o.m)
      [] o.op = "add" ->
           DelSlot([st EXCEPT !.slot[o.k].toks = AddTo(st.slot[o.k].g, @, Obj(st, o.m))], o.m)
      [] o.op = "setbody" ->
           DelSlot([st EXCEPT !.slot[o.k].toks = SetBody(@, Obj(st, o.m))], o.m)
      [] o.op \in {"fwrite", "twrite"} -> [st EXCEPT !.slot[o.k].runs = WrittenRuns(@)]
      [] o.op = "fromhex" ->
           IF r.toks = << NIL >> THEN st ELSE PutObj(st, o.k, "oct", r.toks)
      [] o.op \in {"rnew", "rload"} -> [st EXCEPT !.raw = Put(@, o.q, RawOf(r))]
      [] o.op \in {"rcut", "rset", "rhdr", "ropt", "rput", "reserve", "rtype", "rlen", "rskip", "rbyte", "radv"} ->
           [st EXCEPT !.raw[o.q] = RawOf(r)]
      [] o.op = "rwrite" ->
           LET s == st.slot[o.k]
           IN  [st EXCEPT !.raw[o.q] = RawOf(r), !.slot[o.k].toks = Written(s.g, s.toks)]
      [] o.op = "rparse" ->
           LET s == [st EXCEPT !.raw[o.q] = RawOf(r)]
           IN  IF r.null = 1 THEN s ELSE PutObj(s, o.k, o.g, Expand(r.toks))
      [] o.op = "rfree" -> [st EXCEPT !.raw = Del(@, o.q)]
      [] o.op = "ids" -> [st EXCEPT !.ids = @ \cup { OCT(r.ids[i]) : i \in 1..o.n }]
      [] OTHER -> st
=============================================================================
