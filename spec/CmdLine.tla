------------------------------ MODULE CmdLine ------------------------------
(* What the stand-alone server does for a list of arguments (getopt rules: letters may be joined, a value may follow its
   letter or be the next argument, other words are passed over, "--" ends the options).
   The options are taken in order; the first one that ends the program ends it.                                     *)
EXTENDS Bytes

Dash == 45
Valued == {98, 112, 114}            \* b p r
Plain == {100, 102, 104, 118}       \* d f h v

Unspecified == -1
IsPort(v) == AllDigits(v) /\ Len(v) <= 5 /\ v[1] # 48 /\ Val(v) <= 65535
IsOctet(v) == AllDigits(v) /\ Len(v) <= 3 /\ (v = <<48>> \/ v[1] # 48) /\ Val(v) <= 255
IsAddr(v) == LET p == Pieces(v, 46) IN Len(p) = 4 /\ \A i \in 1..4 : IsOctet(p[i])

\* ends: what would end the program, in order. lacks: an option has no value
Start == [port |-> 4443, bind |-> B("127.0.0.1"), root |-> B("/etc/wayuu"), ssl |-> TRUE, debug |-> FALSE, ends |-> <<>>, lacks |-> FALSE]

Flag(st, c) ==
  CASE c = 100 -> [st EXCEPT !.debug = TRUE]
    [] c = 102 -> [st EXCEPT !.ssl = FALSE]
    [] c = 104 -> [st EXCEPT !.ends = Append(@, "usage")]
    [] c = 118 -> [st EXCEPT !.ends = Append(@, "version")]
    [] OTHER -> [st EXCEPT !.ends = Append(@, "unknown")]
With(st, c, v, dirs) ==
  CASE c = 98 -> [st EXCEPT !.bind = v]
    [] c = 112 -> [st EXCEPT !.port = IF IsPort(v) THEN Val(v) ELSE Unspecified]
    [] OTHER -> IF v \in dirs /\ Len(v) < 256 THEN [st EXCEPT !.root = v] ELSE [st EXCEPT !.ends = Append(@, "noroot")]

RECURSIVE Letters(_, _, _, _, _), Args(_, _, _, _)
\* argument i from its letter j on
Letters(st, as, i, j, dirs) ==
  LET a == as[i] IN
  IF j > Len(a) THEN Args(st, as, i + 1, dirs)
  ELSE IF a[j] \notin Valued THEN Letters(Flag(st, a[j]), as, i, j + 1, dirs)
  ELSE IF j < Len(a) THEN Args(With(st, a[j], From(a, j + 1), dirs), as, i + 1, dirs)
  ELSE IF i < Len(as) THEN Args(With(st, a[j], as[i + 1], dirs), as, i + 2, dirs)
  ELSE [st EXCEPT !.lacks = TRUE]
Args(st, as, i, dirs) ==
  IF i > Len(as) THEN st
  ELSE LET a == as[i] IN
       IF a = <<Dash, Dash>> THEN st
       ELSE IF Len(a) < 2 \/ a[1] # Dash THEN Args(st, as, i + 1, dirs)
       ELSE Letters(st, as, i, 2, dirs)
\* dirs: the texts that name an existing folder
Run(as, dirs) == Args(Start, as, 1, dirs)

Serves(st) == st.ends = <<>>
(* The ways it may end. Whether the root exists may as well be found out after all options were read. *)
Ends(st) == {st.ends[k] : k \in {n \in 1..Len(st.ends) : \A m \in 1..(n - 1) : st.ends[m] = "noroot"}}
=============================================================================
