---------------------------- MODULE SmlGenCommand ----------------------------
(***************************************************************************)
(* Command lines for sml_server, and what they mean, put together from the *)
(* rule itself: options s, v, h in any number and order, alone or together *)
(* in one argument, then perhaps "--", then the device.                    *)
(***************************************************************************)
EXTENDS SmlCommand, Json, IOUtils

P == ndJsonDeserialize(IOEnv.PARAMS)[1]

\* options of one letter and of several, and what is none
Words == << << Dash, S >>, << Dash, V >>, << Dash, H >>, << Dash, S, V >>, << Dash, V, S >>, << Dash, S, S >>, << Dash, S, H >>,
            << Dash, V, S, H, V >>, << Dash, 120 >>, << Dash, S, 120 >>, << Dash, S, Dash >>, << Dash, 104, 120 >>, << Dash, 83 >>, << Dash, 58 >>,
            << Dash, Dash >>, << Dash >>, << 70 >>, << 77 >>, << >>, << S >>, << Dash, 63 >> >>
N == Len(Words)
Exist == { << 70 >> }

VARIABLES ix, rnd, done
vars == << ix, rnd, done >>
Rand(r) == (r * 75 + 74) % 65537
RECURSIVE Draw(_, _, _)
Draw(x, n, r) == IF n = 0 THEN x ELSE LET a == Rand(Rand(r)) IN Draw(Append(x, 1 + ((a \div 7) % N)), n - 1, a)

Init == /\ ix = << >> /\ done = FALSE
        /\ IF P.mode = "all" THEN rnd = 0 ELSE \E i \in 1..P.count : rnd = ((P.seed % 997) * 61 + i * 13) % 65536
Next == /\ ~done /\ UNCHANGED rnd
        /\ IF P.mode = "rnd"
           THEN \* mostly a proper command line
                LET n == 2 + (Rand(rnd) % P.len)
                    x == Draw(<< >>, n, Rand(rnd + 3))
                    y == [j \in 1..n |-> IF x[j] > 6 /\ (rnd + j) % 4 # 0 THEN 1 + (x[j] % 6) ELSE x[j]]
                IN  ix' = (IF rnd % 5 = 0 THEN y
                           ELSE SelectSeq(y, LAMBDA j : j # 3) \o (IF rnd % 3 = 0 THEN << 15 >> ELSE << >>) \o << 16 + (rnd % 2) >>) /\ done' = TRUE
           ELSE \/ Len(ix) < P.len /\ \E j \in 1..N : ix' = Append(ix, j) /\ done' = FALSE
                \/ ix' = ix /\ done' = TRUE
Spec == Init /\ [][Next]_vars

Args == [j \in 1..Len(ix) |-> Words[ix[j]]]

----------------------------------------------------------------------------
\* the options in front of the device: all letters in a row
Front1 == LET E == { j \in 1..Len(Args) : ~IsOption(Args[j]) \/ Args[j] = << Dash, Dash >> }
          IN  IF E = {} THEN Len(Args) ELSE (CHOOSE j \in E : \A k \in E : j <= k) - 1
Row == Concat([j \in 1..Front1 |-> Tail(Args[j])])
Rest == LET r == SubSeq(Args, Front1 + 1, Len(Args)) IN IF r # << >> /\ r[1] = << Dash, Dash >> THEN Tail(r) ELSE r
Sure == SelectSeq(Row, LAMBDA x : x \notin {S, V})

\* the first letter that is neither s nor v decides; without one, there has to be one device
Means == done =>
    LET o == Outcome(Args, Exist)
    IN  IF Sure # << >> THEN o = (IF Sure[1] = H THEN Help ELSE Wrong)
        ELSE IF Len(Rest) # 1 \/ Rest[1] \notin ({ << Dash >> } \cup Exist) THEN o = Wrong
        ELSE o = Go(S \in Range(Row), V \in Range(Row), Rest[1])

\* one argument for each letter is the same as all letters in one argument
Bundles == done =>
    /\ Outcome([j \in 1..Len(Row) |-> << Dash, Row[j] >>] \o SubSeq(Args, Front1 + 1, Len(Args)), Exist) = Outcome(Args, Exist)
          \/ Dash \in Range(Row)
    /\ Outcome(Args, {}).k # "run" \/ Outcome(Args, {}) = Outcome(Args, Exist)

Emit == done => PrintT(ToJson([a |-> Args]))
=============================================================================
