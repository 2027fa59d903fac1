------------------------------ MODULE SmlCommand ------------------------------
(***************************************************************************)
(* examples/sml_server: its command line, and how it sets up the line the  *)
(* meter is connected to.                                                  *)
(*                                                                         *)
(* An argument is a sequence of bytes.  The device "-" is standard input;  *)
(* of the other names, those in the set exist can be opened.               *)
(***************************************************************************)
EXTENDS SmlBase

Dash == 45
H == 104
S == 115
V == 118

Help == [k |-> "help", s |-> FALSE, v |-> FALSE, dev |-> << >>]
Wrong == [k |-> "wrong", s |-> FALSE, v |-> FALSE, dev |-> << >>]
Go(s, v, dev) == [k |-> "run", s |-> s, v |-> v, dev |-> dev]

IsOption(a) == Len(a) > 1 /\ a[1] = Dash

\* the letters of one argument, in order: the options so far, or the end
RECURSIVE Letters(_, _)
Letters(a, c) ==
    IF a = << >> \/ c.k # "run" THEN c
    ELSE CASE a[1] = H -> Help
           [] a[1] = S -> Letters(Tail(a), [c EXCEPT !.s = TRUE])
           [] a[1] = V -> Letters(Tail(a), [c EXCEPT !.v = TRUE])
           [] OTHER -> Wrong

\* options end at the first other argument, or behind "--"; the device is all that is left
RECURSIVE Scan(_, _)
Scan(args, c) ==
    IF c.k # "run" THEN c
    ELSE IF args # << >> /\ IsOption(args[1]) /\ args[1] # << Dash, Dash >> THEN Scan(Tail(args), Letters(Tail(args[1]), c))
    ELSE LET left == IF args # << >> /\ args[1] = << Dash, Dash >> THEN Tail(args) ELSE args
         IN  IF Len(left) = 1 THEN [c EXCEPT !.dev = left[1]] ELSE Wrong

Command(args) == Scan(args, Go(FALSE, FALSE, << >>))

\* what the program does: "help", "wrong", or "run" with a device it can read
Outcome(args, exist) ==
    LET c == Command(args)
    IN  IF c.k = "run" /\ c.dev # << Dash >> /\ c.dev \notin exist THEN Wrong ELSE c

----------------------------------------------------------------------------
(* The line: 8 data bits, no parity, one stop bit, 9600 baud, and every    *)
(* byte as it is.  A setting is a set of the names of what is switched on. *)

Off == {"IGNBRK", "BRKINT", "PARMRK", "ISTRIP", "INLCR", "IGNCR", "ICRNL", "IXON",
        "OPOST", "ECHO", "ECHONL", "ICANON", "ISIG", "IEXTEN", "PARENB", "CSTOPB"}
On == {"CS8"}
LineOk9600(after) == On \subseteq after.flags /\ Off \intersect after.flags = {} /\ after.speed = << 9600, 9600 >>
=============================================================================
