------------------------------ MODULE MC_Files ------------------------------
(* Histories of the file helpers: the store after every sequence of writes and creations.
   Every transition of the store is emitted, with a history that leads to it, for replay.   *)
EXTENDS FileStore, Json
CONSTANTS MaxOps
VARIABLES fs, hist
Names == {B("a"), B("d"), B("d/a")}
Contents == {<<>>, B("x"), B("y x"), <<120, 0, 10, 121>>}
Init == fs = <<>> /\ hist = <<>>
Write == \E n \in Names, x \in Contents : fs' = AfterWrite(fs, n, x) /\ hist' = Append(hist, [f |-> "write", p |-> n, x |-> x])
Create == \E n \in Names : fs' = AfterCreate(fs, n) /\ hist' = Append(hist, [f |-> "mkdir", p |-> n, x |-> <<>>])
Next == Len(hist) < MaxOps /\ (Write \/ Create)
Spec == Init /\ [][Next]_<<fs, hist>>
View == fs

Parents == \A p \in DOMAIN fs : IsFolder(fs, Parent(p))
LastWrite == hist # <<>> =>
  LET o == hist[Len(hist)] IN (o.f = "write" /\ IsFileAt(fs, o.p)) => ReadOf(fs, o.p, 0) = o.x /\ \A m \in 1..6 : ReadOf(fs, o.p, m) = Cut(o.x, m - 1)
Emitted == [][PrintT("@@" \o ToJson(hist'))]_<<fs, hist>>
=============================================================================
