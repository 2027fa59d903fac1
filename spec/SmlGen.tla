------------------------------- MODULE SmlGen --------------------------------
(***************************************************************************)
(* Derivations of the grammar: which byte sequences are well formed, what  *)
(* they mean, and which malformed ones are next to them.  Independent of   *)
(* the parser in SmlParser; TLC checks that the two agree (Agrees), and    *)
(* the derived byte sequences are then replayed into the code.             *)
(*                                                                         *)
(* A derivation state s has                                                *)
(*   todo   items that are still to be derived                             *)
(*   toks   tokens of what was derived                                     *)
(*   wire   its bytes                                                      *)
(*   cls    "ok", "bad" (malformed) or "drop" (wrong checksum)             *)
(*   left   how many times it may still deviate from the base choice       *)
(*   note   the deviations that were made                                  *)
(* Items are records [k, g, toks, bytes, start]:                           *)
(*   k = "g"    derive goal g                                              *)
(*   k = "e"    derive goal g, but not as absent                           *)
(*   k = "raw"  these tokens and bytes                                     *)
(*   k = "crc"  the checksum of the message that began at start            *)
(***************************************************************************)
EXTENDS SmlParser, SmlWriter, Json, IOUtils

CONSTANTS ROOTS,     \* what is derived: goals, or body types with "m:" in front
          LEFT,      \* number of deviations
          MODE,      \* "all": every derivation; "rnd": pseudo-random ones; "abs": with much absent
          COUNT,     \* "rnd": how many for every root
          SEED,      \* "rnd": seed
          RATE,      \* "rnd": one in RATE choices deviates
          WANT       \* classes of interest, for the deviations and the output

----------------------------------------------------------------------------

Alt(n, cls, push, toks, bytes) ==
    [n |-> n, cls |-> cls, push |-> push, toks |-> toks, bytes |-> bytes]
Leaf(n, tok, bytes) == Alt(n, "ok", << >>, << tok >>, bytes)
Bad(n, bytes) == Alt(n, "bad", << >>, << >>, bytes)

IG(g) == [k |-> "g", g |-> g, toks |-> << >>, bytes |-> << >>, start |-> 0]
IE(g) == [IG(g) EXCEPT !.k = "e"]
IRaw(toks, bytes) == [k |-> "raw", g |-> "", toks |-> toks, bytes |-> bytes, start |-> 0]
ICrc(p) == [k |-> "crc", g |-> "", toks |-> << >>, bytes |-> << >>, start |-> p]

\* headers with one and with two needless bytes
Wide1(t, l) == LET v == IF t = TList THEN l ELSE l + 2 IN
    << t + 128 + (v \div 16), v % 16 >>
Wide2(t, l) == LET v == IF t = TList THEN l ELSE l + 3 IN
    << t + 128 + (v \div 256), 128 + ((v \div 16) % 16), v % 16 >>

\* n distinguishable bytes
Pat(n, x) == [i \in 1..n |-> (x * 7 + i * 37) % 256]

OctAlts(x, base) ==
    LET b == << x % 256, 160, (x * 3) % 256 >>
        str(n, bs) == Leaf(n, OCT(bs), Hdr(TOct, Len(bs)) \o bs)
    IN  IF base THEN << str("oct", b) >> ELSE
        << str("oct", b),
           Leaf("oct absent", NIL, << 1 >>),
           Leaf("oct empty", OCT(<< >>), << 128, 2 >>),
           Leaf("oct wide1", OCT(b), Wide1(TOct, 3) \o b),
           Leaf("oct wide2", OCT(b), Wide2(TOct, 3) \o b),
           str("oct 1", << 1 >>), str("oct 1 zero", << 0 >>), str("oct zeros", Rep(6, 0)),
           str("oct ones", Rep(6, 255)), str("oct text", << 68, 90, 71 >>), str("oct tail zero", << 65, 66, 0 >>),
           str("oct head zero", << 0, 65, 66 >>), str("oct name", << 1, 0, 1, 8, 0, 255 >>),
           str("oct esc", << 27, 27, 27 >>),
           str("oct 14", Pat(14, x)), str("oct 15", Pat(15, x)), str("oct 16", Pat(16, x)),
           str("oct 253", Pat(253, x)), str("oct 254", Pat(254, x)), str("oct 300", Pat(300, x)),
           Bad("oct bool", << 66, 1 >>), Bad("oct int", << 82, 1 >>),
           Bad("oct uint", << 98, 1 >>), Bad("oct list", << 113, 2, 7 >>),
           Bad("oct type 10", << 18, 1 >>), Bad("oct type 30", << 50, 1 >>),
           Bad("oct long", << 136, 132, 130, 0 >>), Bad("oct longer", << 143, 143, 143, 143, 143, 15 >>),
           Bad("oct huge", << 135, 143, 143, 143, 143, 143, 143, 15 >>),
           Bad("oct huger", << 143, 143, 143, 143, 143, 143, 143, 143, 1 >>),
           Bad("oct zero", << 0 >>), Bad("oct wide zero", << 128, 0 >>), Bad("oct wide one", << 128, 1 >>) >>

\* values that mean something somewhere, as tags, versions, units, counts, ends
Small == << 1, 2, 3, 4, 5, 8, 16, 26, 27, 30, 32, 64, 98, 100, 118, 127, 128, 254, 255 >>

Other(t) == IF t = TInt THEN TUint ELSE TInt

\* number of type t with n data bytes in a field of w bytes
NumN(n, t, w, bs) == Leaf(n, NUM(t, Widen(bs, w, t = TInt)), << t + Len(bs) + 1 >> \o bs)

NumAlts(t, w, x, base) ==
    LET b(n) == [i \in 1..n |-> (x * 5 + i * 29) % 128]
        signed(n) == << 128 + (x % 100) >> \o b(n - 1)
    IN  IF base THEN << NumN("num", t, w, b(w)) >> ELSE
        << NumN("num", t, w, b(w)),
           Leaf("num absent", NIL, << 1 >>),
           Leaf("num wide1", NUM(t, b(w)), Wide1(t, w) \o b(w)),
           Leaf("num empty", NUM(t, Rep(w, 0)), << t + 1 >>),
           NumN("num neg", t, w, signed(w)),
           NumN("num ones", t, w, Rep(w, 255)), NumN("num zeros", t, w, Rep(w, 0)),
           NumN("num min", t, w, << 128 >> \o Rep(w - 1, 0)),
           NumN("num max", t, w, << 127 >> \o Rep(w - 1, 255)) >>
        \o [i \in 1..Len(Small) |-> NumN("num small", t, w, Rep(w - 1, 0) \o << Small[i] >>)]
        \o (IF w = 1 THEN << >> ELSE
            << NumN("num short 0", t, w, << 0 >>), NumN("num short 1", t, w, << 1 >>),
               NumN("num short 80", t, w, << 128 >>), NumN("num short ff", t, w, << 255 >>),
               NumN("num short 0100", t, w, << 1, 0 >>), NumN("num high", t, w, << 1 >> \o Rep(w - 1, 0)),
               NumN("num 0100", t, w, Rep(w - 2, 0) \o << 1, 0 >>) >>)
        \o [i \in 1..(w - 1) |-> NumN("num short", t, w, b(i))]
        \o [i \in 1..(w - 1) |-> NumN("num short neg", t, w, signed(i))]
        \o << Bad("num wider", << t + w + 2 >> \o b(w + 1)),
              Bad("num wider0", << t + w + 2, 0 >> \o b(w)),
              Bad("num 14", << t + 15 >> \o b(14)),
              Bad("num w+256", Hdr(t, w + 256) \o Rep(256, 0) \o b(w)),
              Bad("num w+65536", Hdr(t, w + 65536) \o b(w)),
              Bad("num 17", << t + 128 + 1, 3 >> \o b(17)),
              Bad("num w+16", Hdr(t, w + 16) \o b(w) \o b(16)),
              Bad("num sign", << Other(t) + w + 1 >> \o b(w)),
              Bad("num oct", << w + 1 >> \o b(w)), Bad("num bool", << 66, 1 >>),
              Bad("num list", << 112 + w >> \o Rep(w, 1)), Bad("num 70", << 112 >>),
              Bad("num type 10", << 18, 1 >>), Bad("num wide zero", << t + 128, 1 >>) >>

BoolAlts ==
    << Leaf("bool", BOOL(255), << 66, 255 >>), Leaf("bool absent", NIL, << 1 >>),
       Leaf("bool false", BOOL(0), << 66, 0 >>), Leaf("bool 1", BOOL(255), << 66, 1 >>),
       Leaf("bool 80", BOOL(255), << 66, 128 >>),
       Leaf("bool wide", BOOL(255), << 192, 3, 7 >>),
       Bad("bool 17 bytes", << 193, 3 >> \o Rep(17, 255)),
       Bad("bool 257 bytes", Hdr(TBool, 257) \o Rep(257, 255)),
       Bad("bool 0 bytes", << 65 >>), Bad("bool 2 bytes", << 67, 1, 1 >>),
       Bad("bool int", << 82, 1 >>), Bad("bool uint", << 98, 1 >>), Bad("bool oct", << 2, 1 >>),
       Bad("bool list", << 113, 1 >>), Bad("bool type 50", << 34, 1 >>) >>

\* numbers that keep their width
AnyNum(t, x) ==
    LET b(n) == << (x % 100) + 1 >> \o [i \in 1..(n - 1) |-> (x * 5 + i * 29) % 256]
        s(n) == << 129 + (x % 100) >> \o [i \in 1..(n - 1) |-> (x * 3 + i * 31) % 256]
    IN  [i \in 1..8 |-> NumN("any", t, Width(i), b(i))]
        \o [i \in 1..8 |-> NumN("any neg", t, Width(i), s(i))]
        \o [i \in 1..8 |-> NumN("any ones", t, Width(i), Rep(i, 255))]
        \o [i \in 1..8 |-> NumN("any 80", t, Width(i), << 128 >> \o Rep(i - 1, 0))]
        \o [i \in 1..16 |-> LET w == << 1, 2, 4, 8 >>[((i - 1) % 4) + 1] IN
                NumN("any small", t, w, Rep(w - 1, 0) \o << << 0, 1, 2, 127 >>[((i - 1) \div 4) + 1] >>)]
        \o << Leaf("any empty", NUM(t, << 0 >>), << t + 1 >>) >>
        \o [i \in 1..6 |-> Bad("any wider", << t + 9 + i >> \o b(8 + i))]
        \o << Bad("any 264", Hdr(t, 264) \o Rep(256, 0) \o b(8)), Bad("any 17", << t + 128 + 1, 3 >> \o b(17)) >>

ValueAlts(x, base) ==
    IF base THEN << NumN("value", TUint, 2, << 200, x % 256 >>) >> ELSE
    << NumN("value", TUint, 2, << 200, x % 256 >>) >>
    \o SelectSeq(OctAlts(x, FALSE), LAMBDA a : a.cls = "ok")
    \o SelectSeq(BoolAlts, LAMBDA a : a.cls = "ok")
    \o AnyNum(TInt, x) \o AnyNum(TUint, x)
    \o << Bad("value list", << 113, 1 >>), Bad("value 70", << 112 >>),
          Bad("value type 10", << 18, 1 >>), Bad("value type 30", << 50, 1 >>),
          Bad("value bool 2", << 67, 1, 1 >>), Bad("value bool 0", << 65 >>),
          Bad("value oct long", << 143, 143, 143, 15 >>), Bad("value oct zero", << 0 >>) >>

StatusAlts(x, base) ==
    IF base THEN << NumN("status", TUint, 2, << 130, x % 256 >>) >> ELSE
    << NumN("status", TUint, 2, << 130, x % 256 >>), Leaf("status absent", NIL, << 1 >>) >>
    \o AnyNum(TUint, x)
    \o << Bad("status int", << 82, 1 >>), Bad("status oct", << 2, 1 >>),
          Bad("status bool", << 66, 1 >>), Bad("status list", << 113, 1 >>) >>

TimeAlts(x, base) ==
    LET v == << x % 256, 17, 34, x % 100 >>
        t(n, tok, bytes) == Alt(n, "ok", << >>, << LST(2), NUM(TUint, << tok >>) >> \o
                                IF bytes[1] = 1 THEN << NIL >> ELSE << NUM(TUint, v) >>,
                                << 114, 98, tok >> \o bytes)
    IN  IF base THEN << t("time", 1, << 101 >> \o v) >> ELSE
        << t("time", 1, << 101 >> \o v), Leaf("time absent", NIL, << 1 >>),
           t("time tag 2", 2, << 101 >> \o v), t("time tag 3", 3, << 101 >> \o v),
           t("time no value", 1, << 1 >>),
           Alt("time tag absent", "ok", << >>, << LST(2), NIL, NUM(TUint, v) >>,
               << 114, 1, 101 >> \o v),
           Alt("time short", "ok", << >>, << LST(2), NUM(TUint, << 1 >>), NUM(TUint, << 0, 0, 9, 8 >>) >>,
               << 114, 98, 1, 99, 9, 8 >>),
           Alt("time wide", "ok", << >>, << LST(2), NUM(TUint, << 1 >>), NUM(TUint, v) >>,
               << 240, 2, 98, 1, 101 >> \o v),
           Alt("time bare", "ok", << >>, << LST(2), NUM(TUint, << 1 >>), NUM(TUint, v) >>,
               << 101 >> \o v),
           Alt("time list", "ok", << >>, << LST(2), NUM(TUint, << 3 >>), NIL >>,
               << 114, 98, 3, 115, 101 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Alt("time list 2", "ok", << >>, << LST(2), NUM(TUint, << 2 >>), NIL >>,
               << 114, 98, 2, 115, 101 >> \o v \o << 82, 60, 82, 0 >>),
           Bad("time 3 elements", << 115, 98, 1, 101 >> \o v \o << 1 >>),
           Bad("time 1 element", << 113, 98, 1 >>),
           Bad("time 0 elements", << 112 >>),
           Bad("time tag int", << 114, 82, 1, 101 >> \o v),
           Bad("time tag wide", << 114, 99, 0, 1, 101 >> \o v),
           Bad("time value int", << 114, 98, 1, 85 >> \o v),
           Bad("time value oct", << 114, 98, 1, 5 >> \o v),
           Bad("time value wide", << 114, 98, 1, 102, 0 >> \o v),
           Bad("time list of 2", << 114, 98, 3, 114, 101 >> \o v \o << 83, 0, 60 >>),
           Bad("time list of 4", << 114, 98, 3, 116, 101 >> \o v \o << 83, 0, 60, 83, 0, 120, 1 >>),
           Bad("time list int", << 114, 98, 3, 115, 85 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Bad("time list offset", << 114, 98, 3, 115, 101 >> \o v \o << 99, 0, 60, 83, 0, 120 >>),
           Bad("time list offset 2", << 114, 98, 3, 115, 101 >> \o v \o << 83, 0, 60, 85, 0, 0, 0, 120 >>),
           Bad("time 258 elements", Hdr(TList, 258) \o << 98, 1, 101 >> \o v),
           Bad("time 18 elements", Hdr(TList, 18) \o << 98, 1, 101 >> \o v),
           Bad("time list of 259", << 114, 98, 3 >> \o Hdr(TList, 259) \o << 101 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Bad("time list of 19", << 114, 98, 3 >> \o Hdr(TList, 19) \o << 101 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Bad("time oct 2", << 3, 98, 1, 101 >> \o v), Bad("time uint 2", << 99, 98, 1, 101 >> \o v),
           Bad("time list oct", << 114, 98, 3, 4, 101 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Bad("time list bool", << 114, 98, 3, 68, 101 >> \o v \o << 83, 0, 60, 83, 0, 120 >>),
           Bad("time bare 2", << 99, 1, 2 >>), Bad("time bare 8", << 105 >> \o v \o v),
           Bad("time bare int", << 85 >> \o v), Bad("time oct", << 5 >> \o v),
           Bad("time bool", << 66, 1 >>), Bad("time bare 3", << 100, 1, 2, 3 >>) >>

----------------------------------------------------------------------------

StructAlts(g, base) ==
    LET fs == [i \in 1..Len(Fields[g]) |-> IG(Fields[g][i])]
        n == Len(fs)
        a(name, cls, h, fields) == Alt(name, cls, fields, << LST(n) >>, h)
    IN  IF base THEN << a("struct", "ok", Hdr(TList, n), fs) >> ELSE
        << a("struct", "ok", Hdr(TList, n), fs),
           a("struct wide1", "ok", Wide1(TList, n), fs),
           a("struct wide2", "ok", Wide2(TList, n), fs),
           a("struct n+1", "bad", Hdr(TList, n + 1), Append(fs, IRaw(<< >>, << 1 >>))),
           a("struct n+1 same", "bad", Hdr(TList, n + 1), fs),
           a("struct n-1", "bad", Hdr(TList, n - 1), Front(fs)),
           a("struct n-1 same", "bad", Hdr(TList, n - 1), fs),
           a("struct n+16", "bad", Hdr(TList, n + 16), fs),
           a("struct n+256", "bad", Hdr(TList, n + 256), fs),
           a("struct n+65536", "bad", Hdr(TList, n + 65536), fs),
           a("struct 0", "bad", << 112 >>, << >>),
           a("struct oct n", "bad", << n % 16 >>, fs),
           a("struct oct", "bad", << n + 1 >>, fs), a("struct bool", "bad", << 64 + n + 1 >>, fs),
           a("struct int n", "bad", << TInt + n + 1 >>, fs), a("struct uint n", "bad", << TUint + n + 1 >>, fs),
           a("struct type 10", "bad", << 16 + n + 1 >>, fs),
           a("struct int", "bad", << 82, 1 >>, fs),
           a("struct uint", "bad", << 98, 1 >>, << >>),
           a("struct huge", "bad", << 241, 128, 128, 128, 128, 128, 128, 128, n % 16 >>, fs),
           IF g \in OptStruct THEN Leaf("struct absent", NIL, << 1 >>)
           ELSE a("struct absent", "bad", << 1 >>, << >>) >>

\* n elements
Elem(g) == IF Containers[g].drop THEN IE(Containers[g].elem) ELSE IG(Containers[g].elem)
Elems(g, n) == Rep(n, Elem(g))
ContainerAlts(g, base) ==
    LET c == Containers[g]
        some(name, n, h) == Alt(name, "ok", Elems(g, n),
                                IF n = 0 /\ c.nil0 THEN << NIL >> ELSE << LST(n) >>, h)
    IN  IF base THEN << some("container", 2, << 114 >>) >> ELSE
        << some("container", 2, << 114 >>), some("container 1", 1, << 113 >>),
           some("container 3", 3, << 115 >>), some("container 0", 0, << 112 >>),
           some("container wide1", 2, Wide1(TList, 2)), some("container wide2", 1, Wide2(TList, 1)),
           some("container 15", 15, << 127 >>), some("container 16", 16, << 241, 0 >>),
           some("container 18", 18, << 241, 2 >>),
           IF c.opt THEN Leaf("container absent", NIL, << 1 >>) ELSE Bad("container absent", << 1 >>),
           Alt("container oct", "bad", Elems(g, 2), << >>, << 3 >>),
           Alt("container int 2", "bad", Elems(g, 2), << >>, << 83 >>),
           Alt("container uint 2", "bad", Elems(g, 2), << >>, << 99 >>),
           Bad("container uint", << 98, 1 >>), Bad("container int", << 83, 1, 1 >>),
           Bad("container bool", << 66, 1 >>),
           Alt("container huge", "bad", Elems(g, 2), << >>,
               << 241, 128, 128, 128, 128, 128, 128, 128, 2 >>),
           IF c.drop
           THEN Alt("container gap", "ok", << IE(c.elem), IRaw(<< >>, << 1 >>), IE(c.elem) >>,
                    << LST(2) >>, << 115 >>)
           ELSE IF c.elem = "oct"
           THEN Alt("container gap", "ok", << IG(c.elem), IRaw(<< NIL >>, << 1 >>), IG(c.elem) >>,
                    << LST(3) >>, << 115 >>)
           ELSE IF c.elem \in OptStruct
           THEN Alt("container gap", "ok", << IG(c.elem), IRaw(<< NIL >>, << 1 >>), IG(c.elem) >>,
                    << LST(3) >>, << 115 >>)
           ELSE Alt("container gap", "bad", << IG(c.elem), IRaw(<< >>, << 1 >>), IG(c.elem) >>,
                    << >>, << 115 >>) >>

\* a tree is finite: depth of the children that are open
ChildAlts(depth) ==
    LET kids(name, n) == Alt(name, "ok", Rep(n, IE("tree")), << LST(n) >>, Hdr(TList, n))
    IN  << Leaf("children absent", NIL, << 1 >>), Leaf("children 0", NIL, << 112 >>),
           kids("children 1", 1), kids("children 2", 2),
           Alt("children gap", "ok", << IE("tree"), IRaw(<< >>, << 1 >>), IE("tree") >>,
               << LST(2) >>, << 115 >>),
           kids("children 17", 17),
           Bad("children oct", << 2, 1 >>),
           Alt("children oct 2", "bad", Rep(2, IE("tree")), << >>, << 3 >>),
           Alt("children uint 2", "bad", Rep(2, IE("tree")), << >>, << 99 >>),
           Bad("children uint", << 98, 1 >>),
           Bad("children huge", << 241, 128, 128, 128, 128, 128, 128, 128, 2 >>) >>

PpvTagAlts ==
    LET t(v) == Alt("ppv tag", "ok", << IG(PpvGoal(v)) >>, << NUM(TUint, << v >>) >>, << 98, v >>)
        b(name, bytes) == Alt(name, "bad", << IG("value") >>, << >>, bytes)
    IN  << t(1), t(2), t(3), t(4),
           Alt("ppv tag wide", "ok", << IG("period") >>, << NUM(TUint, << 2 >>) >>, << 224, 3, 2 >>),
           b("ppv tag 0", << 98, 0 >>), b("ppv tag 5", << 98, 5 >>), b("ppv tag 255", << 98, 255 >>),
           b("ppv tag absent", << 1 >>), b("ppv tag int", << 82, 1 >>), b("ppv tag u16", << 99, 0, 1 >>),
           b("ppv tag oct", << 2, 1 >>), b("ppv tag empty", << 97 >>) >>

BodyTagAlts(g) ==
    LET tag == << 0, 0 >> \o BodyTags[g]
        b(name, bytes) == Alt(name, "bad", << IG(g) >>, << >>, bytes)
    IN  << Alt("body tag", "ok", << IG(g) >>, << NUM(TUint, tag) >>, << 101 >> \o tag),
           Alt("body tag short", "ok", << IG(g) >>, << NUM(TUint, tag) >>, << 99 >> \o BodyTags[g]),
           b("body tag absent", << 1 >>), b("body tag 0", << 101, 0, 0, 0, 0 >>),
           b("body tag 8", << 101, 0, 0, 8, 0 >>), b("body tag 3rd", << 101, 0, 0, 7, 2 >>),
           b("body tag high", << 101, 1, 0 >> \o BodyTags[g]),
           b("body tag high2", << 101, 0, 1 >> \o BodyTags[g]),
           b("body tag int", << 85 >> \o tag), b("body tag u64", << 105, 0, 0, 0, 0 >> \o tag),
           b("body tag oct", << 5 >> \o tag), b("body tag ff00", << 101, 0, 0, 255, 0 >>) >>

MsgItems(p) == << IG("oct"), IG("u8"), IG("u8"), IG("body"), ICrc(p) >>

\* how many bytes later the covered bytes begin and end
Near == << << 0, 1 >>, << 0, -1 >>, << 0, -2 >>, << 1, 0 >>, << 2, 0 >>, << 3, 0 >>, << 1, 1 >>, << 1, -1 >> >>
Front2(q, n) == SubSeq(q, 1, Len(q) - n)

Flip(bs, i, m) == [bs EXCEPT ![i] = @ ^^ m]

CrcAlts(wire, p, base) ==
    LET cov == From(wire, p)
        x == U16Bytes(X25(cov))
        k == U16Bytes(Kermit(cov))
        ok(n, bs) == Leaf(n, NUM(TUint, bs), << 99 >> \o bs \o << 0 >>)
        drop(n, bs) == Alt(n, IF bs \in {x, k} THEN "ok" ELSE "drop", << >>,
                           << NUM(TUint, bs) >>, << 99 >> \o bs \o << 0 >>)
    IN  IF base THEN << ok("crc x25", x) >> ELSE
        << ok("crc x25", x), ok("crc kermit", k),
           Leaf("crc no end", NUM(TUint, x), << 99 >> \o x),
           Leaf("crc wide", NUM(TUint, x), << 224, 4 >> \o x \o << 0 >>),
           drop("crc x25 swapped", << x[2], x[1] >>), drop("crc kermit swapped", << k[2], k[1] >>),
           drop("crc bit 0", Flip(x, 2, 1)), drop("crc bit 15", Flip(x, 1, 128)),
           drop("crc bit 7", Flip(x, 2, 128)), drop("crc bit 8", Flip(x, 1, 1)),
           drop("crc complement", << 255 - x[1], 255 - x[2] >>), drop("crc 0", << 0, 0 >>),
           drop("crc ffff", << 255, 255 >>), drop("crc mixed", << x[1], k[2] >>), drop("crc mixed 2", << k[1], x[2] >>),
           drop("kermit complement", << 255 - k[1], 255 - k[2] >>) >>
        \* the checksums of a little more or less than what they cover
        \o Concat([i \in 1..Len(Near) |->
             LET c == From(Front2(wire \o << 99, 0, 0 >>, 3 - Near[i][2]), p + Near[i][1])
                 a == U16Bytes(X25(c))
                 b == U16Bytes(Kermit(c))
             IN  << drop("crc near", a), drop("crc near", b), drop("crc near", << a[2], a[1] >>), drop("crc near", << b[2], b[1] >>) >>])
        \o <<
           IF x[1] = 0 \/ k[1] = 0 THEN Bad("crc absent", << 1 >>)
           ELSE Alt("crc low byte", "drop", << >>, << >>, << 98, x[2], 0 >>),
           Bad("crc absent", << 1, 0, 0, 0 >>), Bad("crc int", << 83 >> \o x \o << 0 >>),
           Bad("crc u32", << 101, 0, 0 >> \o x \o << 0 >>), Bad("crc oct", << 3 >> \o x \o << 0 >>),
           Bad("crc list", << 114, 1, 1, 0 >>) >>

----------------------------------------------------------------------------

\* alternatives for the first item of s; the first one is the base choice, and the only
\* one that is computed if base
RawAlts(s, base) ==
    LET it == s.todo[1]
        x == Len(s.toks) + 3
    IN  CASE it.k = "raw" -> << Alt("raw", "ok", << >>, it.toks, it.bytes) >>
          [] it.k = "crc" -> CrcAlts(s.wire, it.start, base)
          [] it.g = "oct" -> OctAlts(x, base)
          [] it.g = "bool" -> BoolAlts
          [] it.g = "value" -> ValueAlts(x, base)
          [] it.g = "status" -> StatusAlts(x, base)
          [] it.g = "time" -> TimeAlts(x, base)
          [] it.g = "ppvtag" -> PpvTagAlts
          [] it.g = "bodytag" -> BodyTagAlts(s.body)
          [] it.g \in {"ppvdata", "bodydata"} -> << Alt("", "ok", << >>, << >>, << >>) >>
          [] it.g = "children" -> ChildAlts(0)
          [] it.g = "msg" ->
               LET p == Len(s.wire) + 1
                   a(name, cls, h, items) == Alt(name, cls, items, << LST(6) >>, h)
               IN  << a("msg", "ok", << 118 >>, MsgItems(p)),
                      a("msg wide", "ok", Wide1(TList, 6), MsgItems(p)),
                      a("msg 5", "bad", << 117 >>, MsgItems(p)),
                      a("msg 7", "bad", << 119 >>, MsgItems(p)),
                      a("msg oct", "bad", << 7 >>, MsgItems(p)),
                      a("msg int", "bad", << 87 >>, MsgItems(p)),
                      a("msg uint", "bad", << 98 >>, MsgItems(p)),
                      a("msg absent", "bad", << 1 >>, MsgItems(p)) >>
          [] it.g \in Nums -> NumAlts(NumType[it.g], NumWidth[it.g], x, base)
          [] it.g \in Structs -> StructAlts(it.g, base)
          [] it.g \in DOMAIN Containers -> ContainerAlts(it.g, base)

\* an element of a container that would not count if it were absent is not absent
Alts(s) == IF s.todo[1].k = "e" THEN SelectSeq(RawAlts(s, FALSE), LAMBDA a : a.bytes \notin { << 1 >>, << 128, 2 >> })
           ELSE RawAlts(s, FALSE)
BaseAlt(s) == RawAlts(s, TRUE)[1]

Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "drop" \/ b = "drop" THEN "drop" ELSE "ok"

Apply(s, a, dev) ==
    [s EXCEPT !.todo = a.push \o Tail(@), !.toks = @ \o a.toks, !.wire = @ \o a.bytes,
              !.cls = Worse(@, a.cls), !.left = IF dev THEN @ - 1 ELSE @,
              !.note = IF dev THEN Append(@, a.n) ELSE @]

RECURSIVE FinishBase(_)
FinishBase(s) == IF s.todo = << >> THEN s ELSE FinishBase(Apply(s, BaseAlt(s), FALSE))

Wanted(a) == a.cls \in WANT \cup {"ok"}

\* a small generator of pseudo-random numbers
Rand(r) == (r * 75 + 74) % 65537

RECURSIVE FinishRnd(_, _)
FinishRnd(s, r) ==
    IF s.todo = << >> THEN s
    ELSE LET r1 == Rand(r)
             r2 == Rand(r1)
             dev == s.left > 0 /\ ((r1 \div 3) % RATE) = 0 /\ Len(s.wire) < 1500
         IN  IF ~dev THEN FinishRnd(Apply(s, BaseAlt(s), FALSE), r2)
             ELSE LET as == SelectSeq(Alts(s), Wanted)
                      j == IF Len(as) = 1 THEN 1 ELSE 2 + ((r2 \div 5) % (Len(as) - 1))
                  IN  FinishRnd(Apply(s, as[j], j > 1), r2)

\* what may be absent often is: D in 6 times, and the rest deviates one in three times
IsAbsent(a) == a.cls = "ok" /\ a.bytes = << 1 >>
RECURSIVE FinishAbs(_, _, _)
FinishAbs(s, r, D) ==
    IF s.todo = << >> THEN s
    ELSE LET r1 == Rand(r)
             r2 == Rand(r1)
             as == Alts(s)
             no == SelectSeq(as, IsAbsent)
             ok == SelectSeq(as, LAMBDA a : a.cls = "ok")
         IN  IF s.todo[1].k \in {"raw", "crc"} \/ s.left = 0 \/ Len(s.wire) > 400 THEN FinishAbs(Apply(s, BaseAlt(s), FALSE), r2, D)
             ELSE IF no # << >> /\ s.toks # << >> /\ s.todo[1].g # "children" /\ ((r1 \div 3) % 6) < D
             THEN FinishAbs(Apply(s, no[1], FALSE), r2, D)
             ELSE IF (r2 \div 7) % 3 = 0
             THEN FinishAbs(Apply(s, ok[1 + ((r2 \div 21) % Len(ok))], TRUE), r2, D)
             ELSE FinishAbs(Apply(s, as[1], FALSE), r2, D)

----------------------------------------------------------------------------

VARIABLES s, root, done

\* a root is a goal, or <<"msg", body type>>
InitOf(rt, left) ==
    [todo |-> << IG(rt[1]) >>, toks |-> << >>, wire |-> << >>, cls |-> "ok", left |-> left,
     note |-> << >>, body |-> rt[2], rnd |-> 0]

Init ==
    \E rt \in ROOTS :
       /\ root = rt
       /\ IF MODE = "all"
          THEN s = InitOf(rt, LEFT) /\ done = FALSE
          ELSE \E i \in 1..COUNT :
                 /\ s = [InitOf(rt, LEFT) EXCEPT
                           !.rnd = ((SEED % 997) * 61 + i * 7 + Len(rt[1]) * 17 + Len(rt[2]) * 29
                                    + (i \div 9000) * 3) % 65536]
                 /\ done = FALSE

Next ==
    /\ ~done
    /\ UNCHANGED root
    /\ IF MODE = "rnd"
       THEN s' = FinishRnd(s, Rand(s.rnd)) /\ done' = TRUE
       ELSE IF MODE = "abs"
       THEN s' = FinishAbs(s, Rand(s.rnd), 3 + (s.rnd % 4)) /\ done' = TRUE
       ELSE IF s.left = 0 THEN s' = FinishBase(s) /\ done' = TRUE
       ELSE LET as == Alts(s)
            IN  \E j \in 1..Len(as) :
                  /\ j = 1 \/ Wanted(as[j])
                  /\ LET n == Apply(s, as[j], j > 1)
                     IN  IF n.left = 0 \/ n.todo = << >>
                         THEN s' = FinishBase(n) /\ done' = TRUE
                         ELSE s' = n /\ done' = FALSE

Spec == Init /\ [][Next]_<< s, root, done >>

----------------------------------------------------------------------------
(* The automaton and the derivation agree; encoding is the inverse.        *)

Agrees ==
    done =>
      LET w == s.wire \o << 77 >>
          p == Parse(w, 1, root[1], {})
      IN  CASE s.cls = "ok" -> ~p.err /\ ~p.drop /\ p.out = s.toks /\ p.pos = Len(s.wire) + 1
            [] s.cls = "bad" -> p.err
            [] s.cls = "drop" -> p.drop

\* C14: what was decoded, encoded again, decodes to the same
RoundTrip ==
    (done /\ s.cls = "ok") =>
      LET e == EncodeGoal(root[1], s.toks)
          p == Parse(e \o << 77 >>, 1, root[1], {})
      IN  ~p.err /\ ~p.drop /\ Norm(p.out) = Norm(Written(root[1], s.toks)) /\ p.pos = Len(e) + 1

Emit == (done /\ s.cls \in WANT) =>
          PrintT(ToJson([g |-> root[1], b |-> root[2], w |-> s.wire, c |-> s.cls, n |-> s.note,
                         t |-> s.toks]))
=============================================================================
