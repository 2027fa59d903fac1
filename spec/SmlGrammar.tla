----------------------------- MODULE SmlGrammar ------------------------------
(***************************************************************************)
(* The grammar of SML version 1 structures, as a table.                    *)
(*                                                                         *)
(* A goal is the name of something that can be parsed.  A goal is either   *)
(*   - a leaf       oct, bool, u8..i64, value, status, time                *)
(*   - a structure  a list with a fixed number of fields, one goal each    *)
(*   - a container  a list of any number of elements of one goal           *)
(*   - a choice     ppv (proc parameter value), body (message body)        *)
(*                                                                         *)
(* Parsed objects are represented by tokens in prefix order, each token a  *)
(* tuple of integers:                                                      *)
(*   <<0>>              absent                                             *)
(*   <<1, b1, .., bn>>  octet string                                       *)
(*   <<2, b>>           boolean, b = 0 or 255                              *)
(*   <<3, t, b1..bw>>   number of type t (80 signed, 96 unsigned), w bytes *)
(*   <<4, n>>           list of the n elements that follow                 *)
(* A structure or container is an <<4, n>> token and its elements.         *)
(***************************************************************************)
EXTENDS SmlBase

TOct  == 0
TBool == 64
TInt  == 80
TUint == 96
TList == 112

NIL == << 0 >>
OCT(bs) == << 1 >> \o bs
BOOL(b) == << 2, b >>
NUM(t, bs) == << 3, t >> \o bs
LST(n) == << 4, n >>

Leaves == {"oct", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64",
           "value", "status", "time"}

NumType == [u8 |-> TUint, u16 |-> TUint, u32 |-> TUint, u64 |-> TUint,
            i8 |-> TInt, i16 |-> TInt, i32 |-> TInt, i64 |-> TInt]
NumWidth == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8,
             i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8]
Nums == DOMAIN NumType

\* fields of the structures
Fields ==
  [ openreq   |-> << "oct", "oct", "oct", "oct", "oct", "oct", "u8" >>,
    openres   |-> << "oct", "oct", "oct", "oct", "time", "u8" >>,
    closereq  |-> << "oct" >>,
    closeres  |-> << "oct" >>,
    packreq   |-> << "oct", "oct", "oct", "bool", "time", "time", "path", "objlist", "tree" >>,
    packres   |-> << "oct", "time", "u32", "path", "hdrseq", "perseq", "oct", "oct" >>,
    plistreq  |-> << "oct", "oct", "oct", "bool", "time", "time", "path", "objlist", "tree" >>,
    plistres  |-> << "oct", "time", "u32", "path", "time", "u64", "periodseq", "oct", "oct" >>,
    procreq   |-> << "oct", "oct", "oct", "path", "oct" >>,
    procres   |-> << "oct", "path", "tree" >>,
    setreq    |-> << "oct", "oct", "oct", "path", "tree" >>,
    listreq   |-> << "oct", "oct", "oct", "oct", "oct" >>,
    listres   |-> << "oct", "oct", "oct", "time", "list", "oct", "time" >>,
    attention |-> << "oct", "oct", "oct", "tree" >>,
    entry     |-> << "oct", "status", "time", "u8", "i8", "value", "oct" >>,
    hdr       |-> << "oct", "u8", "i8" >>,
    per       |-> << "time", "u64", "valseq", "oct" >>,
    valentry  |-> << "value", "oct" >>,
    period    |-> << "oct", "u8", "i8", "value", "oct" >>,
    tupel     |-> << "oct", "time", "u64",
                     "u8", "i8", "i64", "u8", "i8", "i64", "u8", "i8", "i64", "oct",
                     "u8", "i8", "i64", "u8", "i8", "i64", "u8", "i8", "i64", "oct" >>,
    tree      |-> << "oct", "ppv", "children" >>,
    ppv       |-> << "ppvtag", "ppvdata" >>,
    body      |-> << "bodytag", "bodydata" >>,
    msg       |-> << "oct", "u8", "u8", "body", "crc", "end" >> ]
Structs == DOMAIN Fields

\* structures that may be encoded as absent
OptStruct == {"period", "tupel", "tree", "ppv"}

\* containers: element, may be absent, an absent element is dropped,
\* a container without elements counts as absent
Containers ==
  [ list      |-> [elem |-> "entry",    opt |-> TRUE,  drop |-> FALSE, nil0 |-> TRUE],
    path      |-> [elem |-> "oct",      opt |-> TRUE,  drop |-> TRUE,  nil0 |-> FALSE],
    objlist   |-> [elem |-> "oct",      opt |-> TRUE,  drop |-> FALSE, nil0 |-> TRUE],
    children  |-> [elem |-> "tree",     opt |-> TRUE,  drop |-> TRUE,  nil0 |-> TRUE],
    hdrseq    |-> [elem |-> "hdr",      opt |-> FALSE, drop |-> FALSE, nil0 |-> FALSE],
    perseq    |-> [elem |-> "per",      opt |-> FALSE, drop |-> FALSE, nil0 |-> FALSE],
    valseq    |-> [elem |-> "valentry", opt |-> FALSE, drop |-> FALSE, nil0 |-> FALSE],
    octseq    |-> [elem |-> "oct",      opt |-> FALSE, drop |-> FALSE, nil0 |-> FALSE],
    periodseq |-> [elem |-> "period",   opt |-> FALSE, drop |-> FALSE, nil0 |-> FALSE] ]

\* the alternatives of the choices
PpvGoal(tag) == CASE tag = 1 -> "value" [] tag = 2 -> "period"
                  [] tag = 3 -> "tupel" [] tag = 4 -> "time" [] OTHER -> "none"

BodyTags == [ openreq |-> << 1, 0 >>, openres |-> << 1, 1 >>,
              closereq |-> << 2, 0 >>, closeres |-> << 2, 1 >>,
              packreq |-> << 3, 0 >>, packres |-> << 3, 1 >>,
              plistreq |-> << 4, 0 >>, plistres |-> << 4, 1 >>,
              procreq |-> << 5, 0 >>, procres |-> << 5, 1 >>,
              setreq |-> << 6, 0 >>, listreq |-> << 7, 0 >>, listres |-> << 7, 1 >>,
              attention |-> << 255, 1 >> ]
BodyTypes == DOMAIN BodyTags

\* the goal for a 4 byte tag
BodyGoal(bs) ==
    IF bs[1] = 0 /\ bs[2] = 0 /\ \E g \in BodyTypes : BodyTags[g] = << bs[3], bs[4] >>
    THEN CHOOSE g \in BodyTypes : BodyTags[g] = << bs[3], bs[4] >>
    ELSE "none"

\* goals that have a public parse function of their own
Goals == (Leaves \cup (Structs \ {"msg"}) \cup DOMAIN Containers) \ {"children", "objlist"}
=============================================================================
