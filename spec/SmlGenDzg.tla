------------------------------ MODULE SmlGenDzg ------------------------------
(***************************************************************************)
(* Value lists with and without the DZG DVS74 power sign error.  The       *)
(* expected meaning is put together entry by entry from the rule itself:   *)
(* behind an entry that identifies an affected meter, a signed reading of  *)
(* at most two bytes under the power name is unsigned, nothing else        *)
(* changes, and nothing carries over to another list.                      *)
(***************************************************************************)
EXTENDS SmlParser, SmlWriter, Json, IOUtils

P == ndJsonDeserialize(IOEnv.PARAMS)[1]

\* ---- alphabet

Serial(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
Id(five, n) == << 10, 1 >> \o five \o << 0 >> \o Serial(n)
DZG == << 68, 90, 71 >>
SerName == << 1, 0, 96, 1, 0, 255 >>
PowName == << 1, 0, 16, 7, 0, 255 >>

Number(t, bs) == [toks |-> << NUM(t, Widen(bs, Width(Len(bs)), t = TInt)) >>, bytes |-> << t + Len(bs) + 1 >> \o bs]

\* an empty string has a needless header byte, as it would be absent without
OctBytes(bs) == IF bs = << >> THEN << 128, 2 >> ELSE Hdr(TOct, Len(bs)) \o bs
Str(bs) == [toks |-> << OCT(bs) >>, bytes |-> OctBytes(bs)]
Nil == [toks |-> << NIL >>, bytes |-> << 1 >>]
Bool(b) == [toks |-> << BOOL(b) >>, bytes |-> << 66, b >>]

\* an entry: name, value, whether it identifies an affected meter, whether it is an
\* affected reading
Ent(name, val, ident, aff) == [name |-> name, val |-> val, ident |-> ident, aff |-> aff]

Good(n) == Ent(SerName, Str(Id(DZG, n)), TRUE, FALSE)
Near(name, val) == Ent(name, val, FALSE, FALSE)

Idents == << Good(42000000), Good(48999999), Good(55000000), Good(58999999), Good(45678901), Good(57000000) >>
NearIdents ==
    << Near(SerName, Str(Id(DZG, 41999999))), Near(SerName, Str(Id(DZG, 49000000))),
       Near(SerName, Str(Id(DZG, 54999999))), Near(SerName, Str(Id(DZG, 59000000))),
       Near(SerName, Str(Id(DZG, 50000000))), Near(SerName, Str(Id(DZG, 0))),
       Near(SerName, Str(Id(<< 68, 90, 72 >>, 45000000))), Near(SerName, Str(Id(<< 69, 77, 72 >>, 45000000))),
       Near(SerName, Str(<< 10, 2 >> \o DZG \o << 0 >> \o Serial(45000000))),
       Near(SerName, Str(<< 9, 1 >> \o DZG \o << 0 >> \o Serial(45000000))),
       Near(SerName, Str(<< 10, 1 >> \o DZG \o << 1 >> \o Serial(45000000))),
       Near(SerName, Str(<< 10, 1 >> \o DZG \o << 128 >> \o Serial(45000000))),
       Near(SerName, Str(<< 10, 1 >> \o DZG \o Serial(45000000))),
       Near(SerName, Str(<< 10, 1 >> \o DZG \o << 0, 0 >> \o Serial(45000000))),
       Near(SerName, Str(<< 10, 1 >> \o DZG)), Near(SerName, Str(<< >>)),
       Near(SerName, Nil), Near(SerName, Number(TUint, << 2, 174, 165, 64 >>)), Near(SerName, Bool(255)),
       Near(<< 1, 0, 96, 1, 0, 254 >>, Str(Id(DZG, 45000000))), Near(<< 1, 0, 96, 1, 0 >>, Str(Id(DZG, 45000000))),
       Near(<< 1, 0, 96, 1, 0, 255, 0 >>, Str(Id(DZG, 45000000))), Near(<< 1, 0, 0, 0, 9, 255 >>, Str(Id(DZG, 45000000))),
       Near(PowName, Str(Id(DZG, 45000000))), Near(<< >>, Str(Id(DZG, 45000000))) >>
Hit(v) == Ent(PowName, v, FALSE, TRUE)
Powers == << Hit(Number(TInt, << 255, 56 >>)), Hit(Number(TInt, << 200 >>)), Hit(Number(TInt, << 0, 200 >>)),
             Hit(Number(TInt, << 100 >>)), Hit(Number(TInt, << 128, 0 >>)), Hit(Number(TInt, << >>)) >>
NearPowers ==
    << Near(PowName, Number(TInt, << 255, 255, 56 >>)), Near(PowName, Number(TInt, << 255, 255, 255, 56 >>)),
       Near(PowName, Number(TInt, Rep(8, 254))), Near(PowName, Number(TInt, Rep(5, 254))),
       Near(PowName, Number(TUint, << 255, 56 >>)), Near(PowName, Number(TUint, << 200 >>)), Near(PowName, Nil),
       Near(PowName, Str(<< 255, 56 >>)), Near(PowName, Str(<< >>)), Near(PowName, Bool(0)), Near(PowName, Bool(255)),
       Near(<< 1, 0, 1, 8, 0, 255 >>, Number(TInt, << 255, 56 >>)), Near(<< 1, 0, 16, 7, 0, 254 >>, Number(TInt, << 255, 56 >>)),
       Near(<< 1, 0, 36, 7, 0, 255 >>, Number(TInt, << 255, 56 >>)), Near(<< 1, 0, 16, 7, 0 >>, Number(TInt, << 255, 56 >>)),
       Near(<< 1, 0, 16, 7, 0, 255, 255 >>, Number(TInt, << 255, 56 >>)), Near(<< >>, Number(TInt, << 255 >>)),
       Near(SerName, Number(TInt, << 255, 56 >>)) >>
Alphabet == Idents \o NearIdents \o Powers \o NearPowers
Short == << Good(42000000), Good(58999999), NearIdents[1], NearIdents[3], NearIdents[7], NearIdents[17], Powers[1], Powers[2],
            NearPowers[1], NearPowers[5], NearPowers[8], NearPowers[12] >>
Set == IF P.set = "short" THEN Short ELSE Alphabet
\* 0 begins a new list
N == Len(Set)

VARIABLES ix, rnd, done
vars == << ix, rnd, done >>

Rand(r) == (r * 75 + 74) % 65537
Init == /\ ix = << >> /\ done = FALSE
        /\ IF P.mode = "all" THEN rnd = 0
           ELSE \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
RECURSIVE Draw(_, _, _)
Draw(s, n, r) ==
    IF n = 0 THEN s
    ELSE LET k == (r \div 3) % (N + 12)
             \* identifying entries and affected readings more often
             j == IF k <= N THEN k ELSE IF k <= N + 6 THEN 1 + (k % 6)
                  ELSE IF P.set = "short" THEN 7 ELSE Len(Idents) + Len(NearIdents) + 1 + (k % 6)
         IN  Draw(Append(s, j), n - 1, Rand(Rand(r)))
Next == /\ ~done
        /\ IF P.mode = "rnd"
           THEN ix' = Draw(<< >>, 1 + (Rand(rnd) % P.len), Rand(Rand(rnd + 5))) /\ done' = TRUE
           ELSE \/ /\ Len(ix) < P.len /\ \E j \in (IF P.lists = 1 THEN 0 ELSE 1)..N : ix' = Append(ix, j)
                   /\ done' = FALSE
                \/ ix # << >> /\ ix' = ix /\ done' = TRUE
        /\ UNCHANGED rnd
Spec == Init /\ [][Next]_vars

\* ---- wire and expected meaning

\* the other fields of an entry, that have no part in it; 0 for the usual ones
Sts == << Nil, Number(TUint, << 7 >>), Number(TUint, << 0, 130 >>), Number(TUint, << 1, 2, 3, 4, 5, 6, 7, 8 >>) >>
Time(v) == [toks |-> << LST(2), NUM(TUint, << 1 >>), NUM(TUint, v) >>, bytes |-> << 114, 98, 1, 101 >> \o v]
Tms == << Nil, Time(<< 0, 0, 0, 9 >>), [toks |-> Time(<< 1, 2, 3, 4 >>).toks, bytes |-> << 101, 1, 2, 3, 4 >>] >>
Uns == << Number(TUint, << 27 >>), Nil, Number(TUint, << 30 >>), Number(TUint, << 0 >>), Number(TUint, << 255 >>) >>
Scs == << Number(TInt, << 255 >>), Nil, Number(TInt, << 0 >>), Number(TInt, << 3 >>) >>
Sgs == << Nil, Str(<< 1, 2 >>), Str(<< >>) >>
At(alts, v) == alts[1 + (v % Len(alts))]
Before(v) == << At(Sts, v), At(Tms, v \div 4), At(Uns, v \div 12), At(Scs, v \div 60) >>
After(v) == << At(Sgs, v \div 240) >>
Bytes(fs) == Concat([i \in 1..Len(fs) |-> fs[i].bytes])
Toks(fs) == Concat([i \in 1..Len(fs) |-> fs[i].toks])

EntBytes(e, v) == << 119 >> \o OctBytes(e.name) \o Bytes(Before(v)) \o e.val.bytes \o Bytes(After(v))
EntToks(e, v, on) ==
    << LST(7), OCT(e.name) >> \o Toks(Before(v))
    \o (IF on /\ e.aff THEN << NUM(TUint, SubSeq(e.val.toks[1], 3, Len(e.val.toks[1]))) >> ELSE e.val.toks)
    \o Toks(After(v))

\* the lists, as sequences of entries
RECURSIVE Split(_, _, _)
Split(x, cur, acc) ==
    IF x = << >> THEN Append(acc, cur)
    ELSE IF x[1] = 0 THEN Split(Tail(x), << >>, Append(acc, cur))
    ELSE Split(Tail(x), Append(cur, Set[x[1]]), acc)
Lists == SelectSeq(Split(ix, << >>, << >>), LAMBDA l : l # << >>)

RECURSIVE Sum(_)
Sum(x) == IF x = << >> THEN 0 ELSE (Sum(Tail(x)) * 31 + x[1] + 1) % 65521
Vary(i) == IF P.vary = 0 THEN 0 ELSE Rand(Rand(Sum(ix) * 7 + i * 419) % 65537) % 720

ListBytes(l) == Hdr(TList, Len(l)) \o Concat([i \in 1..Len(l) |-> EntBytes(l[i], Vary(i))])
ListToks(l) ==
    << LST(Len(l)) >> \o Concat([i \in 1..Len(l) |->
        EntToks(l[i], Vary(i), \E j \in 1..(i - 1) : l[j].ident)])

MsgBytes(l, n) ==
    LET b == << 118, 2, n, 98, 0, 98, 0, 114, 99, 7, 1, 119, 1, 2, 9, 1, 1 >> \o ListBytes(l) \o << 1, 1 >>
    IN  b \o << 99 >> \o U16Bytes(X25(b)) \o << 0 >>
MsgToks(l, n) ==
    LET w == MsgBytes(l, n)
    IN  << LST(6), OCT(<< n >>), NUM(TUint, << 0 >>), NUM(TUint, << 0 >>), LST(2), NUM(TUint, << 0, 0, 7, 1 >>),
           LST(7), NIL, OCT(<< 9 >>), NIL, NIL >> \o ListToks(l)
        \o << NIL, NIL, NUM(TUint, SubSeq(w, Len(w) - 2, Len(w) - 1)) >>

Wire == Concat([i \in 1..Len(Lists) |-> MsgBytes(Lists[i], i)])

Corrects == done =>
    /\ ParseFile(Wire, {}) = [msgs |-> [i \in 1..Len(Lists) |-> MsgToks(Lists[i], i)], err |-> FALSE]

Emit == done /\ Lists # << >> =>
    PrintT(ToJson([w |-> Wire, l |-> ListBytes(Lists[1]), ix |-> ix]))
=============================================================================
