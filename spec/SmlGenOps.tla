------------------------------ MODULE SmlGenOps ------------------------------
(***************************************************************************)
(* Histories of operations: every one up to a length, or pseudo-random     *)
(* longer ones, over a pool of objects, some slots and some buffers.  An   *)
(* operation is chosen among those that are enabled, and has the result    *)
(* that OpResult computes.  TLC checks for every history                     *)
(*   Admitted    the specification allows that result                      *)
(*   Isolated    an operation changes no slot and no buffer but its own    *)
(*   Commutes    neighbouring operations on different slots and buffers    *)
(*               have the same results in either order                     *)
(*   Conserved   no element is lost or doubled by additions                *)
(*   Repeats     what is encoded again yields the same bytes               *)
(*   Cursors     a buffer's cursor is the sum of what was written to it    *)
(* and the histories are then executed by the code.                        *)
(***************************************************************************)
EXTENDS SmlApi, Json, IOUtils

P == ndJsonDeserialize(IOEnv.PARAMS)[1]

VARIABLES grp,    \* what the history is about: one of P.groups, a record of
                  \*   pool   objects [g, w, t, c]
                  \*   files  byte sequences that are files
                  \*   inits  goals
                  \*   kinds  of operations; more often if mentioned more often
          st,     \* the state of the API
          hist,   \* operations so far
          prev,   \* the states before the last two operations
          ress,   \* results of the last two operations
          made,   \* number of elements that should be there
          sums,   \* what was written to each buffer since it was created or rewound
          rnd, done
vars == << grp, st, hist, prev, ress, made, sums, rnd, done >>

Group == P.groups[grp]
Pool == Group.pool
Files == Group.files
Inits == Group.inits
Kinds == Group.kinds

Slots == 1..P.slots
Bufs == 1..P.bufs
FreeSlots == Slots \ DOMAIN st.slot
FreeBufs == Bufs \ DOMAIN st.buf
Least(S) == IF S = {} THEN << >> ELSE << CHOOSE x \in S : \A y \in S : x <= y >>
Live == SetToSortSeq(DOMAIN st.slot, <)
LiveBuf == SetToSortSeq(DOMAIN st.buf, <)
OfGoal(gs) == SelectSeq(Live, LAMBDA k : st.slot[k].g \in gs)
Objects == SelectSeq(Live, LAMBDA k : st.slot[k].g # "file")

Pairs(a, b) == [i \in 1..(Len(a) * Len(b)) |-> << a[1 + ((i - 1) \div Len(b))], b[1 + ((i - 1) % Len(b))] >>]
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Good == SelectSeq(Pool, LAMBDA d : d.c = "ok" /\ Some(d.t))

\* a message that can be read was written to the start of a buffer and nothing else
Whole(q) == /\ Len(sums[q]) = 1
            /\ sums[q][1].g = "msg"
            /\ LET p == Parse(EncodeMsg(sums[q][1].toks), 1, "msg", {}) IN ~p.err /\ ~p.drop

\* the operations of a kind that are possible now
Cands(kind) ==
    CASE kind = "parse" -> Map(Pairs(Least(FreeSlots), Pool),
               LAMBDA x : [op |-> "parse", g |-> x[2].g, k |-> x[1], in |-> x[2].w \o << 77 >>])
      [] kind = "build" -> Map(Pairs(Least(FreeSlots), Good),
               LAMBDA x : [op |-> "build", g |-> x[2].g, k |-> x[1], toks |-> x[2].t])
      [] kind = "init" -> Map(Pairs(Least(FreeSlots), Inits), LAMBDA x : [op |-> "init", g |-> x[2], k |-> x[1]])
      [] kind = "file" -> Map(Pairs(Least(FreeSlots), Files),
               LAMBDA x : [op |-> "file", k |-> x[1], in |-> x[2], rep |-> 1])
      [] kind = "dump" -> Map(Live, LAMBDA k : [op |-> "dump", k |-> k])
      [] kind = "free" -> Map(Live, LAMBDA k : [op |-> "free", k |-> k])
      [] kind = "heap" -> << [op |-> "heap"] >>
      [] kind = "newbuf" -> Map(Pairs(Least(FreeBufs), P.sizes),
               LAMBDA x : [op |-> "newbuf", q |-> x[1], size |-> x[2], fill |-> (x[2] * 85) % 256])
      [] kind = "rewind" -> Map(LiveBuf, LAMBDA q : [op |-> "rewind", q |-> q])
      [] kind = "freebuf" -> Map(LiveBuf, LAMBDA q : [op |-> "freebuf", q |-> q])
      [] kind = "write" -> Map(Pairs(Objects, LiveBuf), LAMBDA x : [op |-> "write", k |-> x[1], q |-> x[2]])
      [] kind = "reparse" -> Map(Pairs(Least(FreeSlots), SelectSeq(LiveBuf, Whole)),
               LAMBDA x : [op |-> "reparse", k |-> x[1], q |-> x[2]])
      [] kind = "addmsg" -> Map(Pairs(OfGoal({"file"}), OfGoal({"msg"})),
               LAMBDA x : [op |-> "addmsg", k |-> x[1], m |-> x[2]])
      [] kind = "add" -> Map(SelectSeq(Pairs(Objects, Objects),
                                       LAMBDA x : x[1] # x[2] /\ ElemGoal(st.slot[x[1]].g) = st.slot[x[2]].g),
               LAMBDA x : [op |-> "add", k |-> x[1], m |-> x[2]])
      [] kind = "setbody" -> Map(Pairs(OfGoal({"msg"}), OfGoal({"body"})),
               LAMBDA x : [op |-> "setbody", k |-> x[1], m |-> x[2]])
      [] kind = "fwrite" -> Map(OfGoal({"file"}), LAMBDA k : [op |-> "fwrite", k |-> k, rw |-> 1])
      [] kind = "twrite" -> Map(OfGoal({"file"}), LAMBDA k : [op |-> "twrite", k |-> k, lim |-> -1, more |-> 0])
      [] kind = "double" -> Map(OfGoal({"value"}), LAMBDA k : [op |-> "double", k |-> k])
      [] kind = "strhex" -> Map(SelectSeq(OfGoal({"value"}), LAMBDA k : Obj(st, k)[1][1] = 1), LAMBDA k : [op |-> "strhex", k |-> k, mixed |-> k % 2])
      [] kind = "cmp" -> Map(Pairs(OfGoal({"oct"}), OfGoal({"oct"})), LAMBDA x : [op |-> "cmp", a |-> x[1], b |-> x[2]])
      [] kind = "crc" -> Map(Pool, LAMBDA d : [op |-> "crc", in |-> d.w])

SlotsOf(o) == { o[f] : f \in DOMAIN o \cap (IF o.op = "cmp" THEN {"a", "b"} ELSE {"k", "m"}) }
BufsOf(o) == { o[f] : f \in DOMAIN o \cap {"q"} }

----------------------------------------------------------------------------
(* What an operation yields                                                *)

NewId(s) == OCT(Rep(15, 1) \o << Cardinality(s.ids) >>)

OpResult(o, s) ==
    CASE o.op = "parse" ->
           LET p == Parse(o.in, 1, o.g, {})
           IN  IF p.err \/ p.drop
               THEN [null |-> 1, err |-> Flag(p.err), cur |-> 0, toks |-> << NIL >>]
               ELSE [null |-> Flag(~Some(p.out)), err |-> 0, cur |-> p.pos - 1, toks |-> p.out]
      [] o.op = "build" -> [toks |-> o.toks]
      [] o.op = "init" ->
           IF o.g = "file" THEN [n |-> 0, msgs |-> << >>]
           ELSE IF o.g = "msg" THEN [toks |-> << LST(6), NewId(s), NIL, NIL, NIL, NIL >>]
           ELSE [toks |-> Fresh(o.g)]
      [] o.op = "file" ->
           LET f == FileResult(o, {})
           IN  [err |-> Flag(f.err), cur |-> Len(o.in), n |-> RunsTotal(f.runs), msgs |-> f.runs]
      [] o.op = "dump" ->
           IF s.slot[o.k].g = "file" THEN [n |-> RunsTotal(s.slot[o.k].runs), msgs |-> s.slot[o.k].runs]
           ELSE [toks |-> Obj(s, o.k)]
      [] o.op = "heap" -> [live |-> Cardinality(DOMAIN s.slot) + Cardinality(DOMAIN s.buf), badfree |-> 0]
      [] o.op = "newbuf" -> [len |-> o.size, cur |-> 0, err |-> 0]
      [] o.op = "write" -> [from |-> s.buf[o.q], pre |-> 1, bytes |-> EncodeGoal(s.slot[o.k].g, Obj(s, o.k))]
      [] o.op = "reparse" ->
           LET e == EncodeMsg(sums[o.q][1].toks)
           IN  [null |-> 0, err |-> 0, in |-> e, toks |-> Parse(e, 1, "msg", {}).out]
      [] o.op = "addmsg" -> [n |-> RunsTotal(s.slot[o.k].runs) + 1]
      [] o.op = "add" ->
           LET x == s.slot[o.k]
           IN  [n |-> Count(x.g, x.toks) + (IF x.g = "list" THEN Obj(s, o.m)[1][2] ELSE 1)]
      [] o.op = "fwrite" -> [bytes |-> EncodeRuns(s.slot[o.k].runs)]
      [] o.op = "twrite" -> LET f == Frame1(EncodeRuns(s.slot[o.k].runs)) IN [ret |-> Len(f), bytes |-> f]
      [] o.op = "double" -> LET t == Obj(s, o.k)[1]
                            IN  [bits |-> IF t[1] = 3 THEN DoubleBits(t[2], SubSeq(t, 3, Len(t))) ELSE Rep(8, 0)]
      [] o.op = "strhex" -> [null |-> Flag(Obj(s, o.k)[1] = NIL), same |-> 1,
                             text |-> StrHex(OctOf(Obj(s, o.k)[1]), o.mixed = 1)]
      [] o.op = "cmp" -> [eq |-> Flag(Obj(s, o.a) = Obj(s, o.b) \/ (OctOf(Obj(s, o.a)[1]) = OctOf(Obj(s, o.b)[1])))]
      [] o.op = "crc" -> [x25 |-> X25(o.in), kermit |-> Kermit(o.in)]
      [] OTHER -> [ok |-> 1]

----------------------------------------------------------------------------
(* Elements: what is neither a list nor absent; the checksum of a message, *)
(* which encoding sets, does not count.                                    *)

Elements(g, ts) ==
    Cardinality({ i \in 1..Len(ts) : ts[i][1] \in {1, 2, 3} /\ ~(g = "msg" /\ i = Len(ts)) })
InSlot(x) == IF x.g = "file" THEN FoldLeft(LAMBDA a, y : a + y[1] * Elements("msg", y[2]), 0, x.runs)
             ELSE Elements(x.g, x.toks)
Total(s) == FoldLeft(LAMBDA a, k : a + InSlot(s.slot[k]), 0, SetToSeq(DOMAIN s.slot))

Added(o, s, r) ==
    CASE o.op \in {"parse", "build", "reparse", "init", "file"} ->
           IF o.op = "parse" /\ r.null = 1 THEN 0
           ELSE InSlot(After(o, r, s, {}).slot[o.k])
      [] o.op = "free" -> 0 - InSlot(s.slot[o.k])
      [] o.op = "setbody" -> 0 - Elements("", SubSeq(Obj(s, o.k), 5, SubEnd(Obj(s, o.k), 5) - 1))
      [] OTHER -> 0

----------------------------------------------------------------------------

Rand(r) == (r * 75 + 74) % 65537

Init == /\ grp \in 1..Len(P.groups)
        /\ st = InitState /\ hist = << >> /\ prev = << >> /\ ress = << >> /\ made = 0
        /\ sums = [q \in Bufs |-> << >>] /\ done = FALSE
        /\ IF P.mode = "all" THEN rnd = 0
           ELSE \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13 + (i \div 5000) + grp * 4099) % 65536

Last2(s, x) == IF Len(s) < 2 THEN Append(s, x) ELSE << s[2], x >>

Perform(o) ==
    LET r == OpResult(o, st)
    IN  /\ st' = After(o, r, st, {})
        /\ hist' = Append(hist, o)
        /\ prev' = Last2(prev, st)
        /\ ress' = Last2(ress, r)
        /\ made' = made + Added(o, st, r)
        /\ sums' = CASE o.op \in {"newbuf", "rewind", "freebuf"} -> [sums EXCEPT ![o.q] = << >>]
                     [] o.op = "write" -> [sums EXCEPT ![o.q] = Append(@, st.slot[o.k])]
                     [] OTHER -> sums

Next ==
    /\ ~done
    /\ UNCHANGED grp
    /\ IF Len(hist) >= P.len
       THEN done' = TRUE /\ UNCHANGED << st, hist, prev, ress, made, sums, rnd >>
       ELSE /\ done' = FALSE
            /\ IF P.mode = "all"
               THEN /\ UNCHANGED rnd
                    /\ \E i \in 1..Len(Kinds) :
                          LET cs == Cands(Kinds[i]) IN \E j \in 1..Len(cs) : Perform(cs[j])
               ELSE /\ rnd' = Rand(Rand(rnd))
                    /\ LET cs == Cands(Kinds[1 + ((rnd \div 3) % Len(Kinds))])
                       IN  IF cs = << >> THEN UNCHANGED << st, hist, prev, ress, made, sums >>
                           ELSE Perform(cs[1 + ((Rand(rnd) \div 7) % Len(cs))])

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

N == Len(hist)
LastOp == hist[N]
Before == prev[Len(prev)]
LastRes == ress[Len(ress)]

Admitted == N > 0 => Allowed(LastOp, LastRes, Before, {})

Same(f, h, except) == \A x \in (DOMAIN f \cup DOMAIN h) \ except :
                          x \in DOMAIN f /\ x \in DOMAIN h /\ f[x] = h[x]
Isolated ==
    N > 0 => /\ Same(Before.slot, st.slot, SlotsOf(LastOp))
             /\ Same(Before.buf, st.buf, BufsOf(LastOp))

\* operations whose result depends on all slots or that draw an id do not count
Global(o) == o.op = "heap" \/ (o.op = "init" /\ o.g = "msg") \/ o.op = "reparse"
Commutes ==
    N > 1 =>
      LET a == hist[N - 1]
          b == hist[N]
          s0 == prev[1]
      IN  (~Global(a) /\ ~Global(b) /\ SlotsOf(a) \cap SlotsOf(b) = {} /\ BufsOf(a) \cap BufsOf(b) = {}) =>
            LET rb == OpResult(b, s0)
                s1 == After(b, rb, s0, {})
                ra == OpResult(a, s1)
            IN  rb = ress[2] /\ ra = ress[1] /\ After(a, ra, s1, {}) = st

Conserved == made = Total(st)

Repeats ==
    (N > 0 /\ LastOp.op = "write") =>
       OpResult([LastOp EXCEPT !.q = LastOp.q], st).bytes = LastRes.bytes

Cursors == \A q \in DOMAIN st.buf :
              st.buf[q] = FoldLeft(LAMBDA a, x : a + Len(EncodeGoal(x.g, x.toks)), 0, sums[q])

Emit == done => PrintT(ToJson([ops |-> hist, live |-> Live, bufs |-> LiveBuf]))
=============================================================================
