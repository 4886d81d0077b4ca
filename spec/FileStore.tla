----------------------------- MODULE FileStore -----------------------------
(* The files and folders that the file helpers work on: a function from paths to what is there. *)
EXTENDS Bytes

Folder == [kind |-> "dir", x |-> <<>>]
FileOf(x) == [kind |-> "file", x |-> x]

SLASH == 47
Parent(p) == LET i == Last(1, Len(p), LAMBDA k : p[k] = SLASH) IN IF i = 0 THEN <<>> ELSE Upto(p, i - 1)
IsThere(fs, p) == p \in DOMAIN fs
IsFolder(fs, p) == p = <<>> \/ (IsThere(fs, p) /\ fs[p].kind = "dir")
IsFileAt(fs, p) == IsThere(fs, p) /\ fs[p].kind = "file"
With(fs, p, v) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN v ELSE fs[q]]

(* The helpers *)
AfterWrite(fs, p, x) == IF IsFolder(fs, p) \/ ~IsFolder(fs, Parent(p)) THEN fs ELSE With(fs, p, FileOf(x))
ReadOf(fs, p, max) == IF ~IsFileAt(fs, p) THEN <<>> ELSE IF max = 0 THEN fs[p].x ELSE Cut(fs[p].x, max - 1)
CanCreate(fs, p) == IsFolder(fs, p) \/ (~IsThere(fs, p) /\ IsFolder(fs, Parent(p)))
AfterCreate(fs, p) == IF CanCreate(fs, p) /\ ~IsFolder(fs, p) THEN With(fs, p, Folder) ELSE fs
HasLine(fs, p, needle) == IsFileAt(fs, p) /\ LET ps == Pieces(fs[p].x, LF)
                                                 ls == IF ps[Len(ps)] = <<>> THEN Upto(ps, Len(ps) - 1) ELSE ps
                                             IN \E i \in 1..Len(ls) : Trim(ls[i]) = needle
=============================================================================
