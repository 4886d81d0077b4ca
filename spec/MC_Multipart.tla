---------------------------- MODULE MC_Multipart ----------------------------
(* Forms of a few fields and files, built part by part, written as a multipart body and read again: whatever the contents are
   made of (line ends, dashes, beginnings of the delimiter), the parts come back, and the form says what the parts say.
   Emits every body.                                                                                                     *)
EXTENDS Multipart, HttpReq, Json, TLC
CONSTANTS MaxParts, Names, FNames, Contents, Bounds, Quoted

dd == <<45, 45>>
FullContents == {<<>>, B("x"), CRLF, dd, CRLF \o dd, CRLF \o <<45>>, dd \o B("b"), CRLF \o dd \o B("b"), <<LF>>, <<CR>>, <<NUL>>, B("&k=%41+"),
                 CRLF \o CRLF, B("bb"), dd \o dd, CRLF \o dd \o B("bx") \o dd, <<CR, CR, LF>>, <<255, 45>>, <<LF>> \o dd \o B("bb")}
SomeContents == {<<>>, B("x"), CRLF, dd, CRLF \o dd, CRLF \o dd \o B("b"), <<NUL>>, <<CR>>, B("&k=%41+"), CRLF \o CRLF}
FullNames == {B("k"), <<>>, B("a b;c"), B("filename")}
SomeNames == {B("k")}
FullFNames == {NoValue, <<>>, B("f.txt"), B("../f"), B("a;b c")}
SomeFNames == {NoValue, B("f.txt"), <<>>}
FullBounds == {B("b"), B("bb"), dd \o B("b"), B("--bb--"), B("a'()+_,-./:=?z")}
SomeBounds == {B("b"), dd \o B("b")}

VARIABLES b, q, parts, fin
vars == <<b, q, parts, fin>>
Init == b \in Bounds /\ q \in Quoted /\ parts = <<>> /\ fin = <<>>
Add == /\ fin = <<>> /\ Len(parts) < MaxParts
       /\ \E nm \in Names, fn \in FNames, ct \in Contents :
            parts' = Append(parts, [ok |-> TRUE, file |-> fn # NoValue, name |-> nm, fname |-> IF fn = NoValue THEN <<>> ELSE fn, content |-> ct])
       /\ UNCHANGED <<b, q, fin>>
Finish == fin = <<>> /\ parts # <<>> /\ fin' \in {dd, dd \o CRLF} /\ UNCHANGED <<b, q, parts>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Encode1(p) == dd \o b \o CRLF \o sDisposition \o B(": ") \o sFormData \o p.name \o <<QUOTE>>
              \o (IF p.file THEN sFileName \o p.fname \o <<QUOTE>> \o CRLF \o B("Content-Type: application/octet-stream") ELSE <<>>)
              \o CRLF \o CRLF \o p.content \o CRLF
Body == Concat([i \in 1..Len(parts) |-> Encode1(parts[i])]) \o dd \o b \o fin
Type == B("multipart/form-data; boundary=") \o (IF q THEN <<QUOTE>> \o b \o <<QUOTE>> ELSE b)

(* A delimiter inside of a part, or a byte that no text has, makes another body of it *)
Delimited(p) == Contains(Encode1([p EXCEPT !.content = p.content]), dd \o b) /\ Cardinality({i \in 1..Len(Encode1(p)) : At(Encode1(p), dd \o b, i)}) > 1
Clean == \A i \in 1..Len(parts) : ~Delimited(parts[i]) /\ (parts[i].file \/ ~HasC(parts[i].content, NUL))
RoundTrip == fin # <<>> /\ Clean => PartsOf(Body, b) = [ok |-> TRUE, parts |-> parts]
(* Nothing that stops early is a form; all places where it may stop for one part, the last ones for more *)
NoneTruncated == fin = dd /\ Clean => LET body == Body
                                          from == IF Len(parts) = 1 THEN 1 ELSE Len(body) - 8
                                      IN \A k \in from..(Len(body) - 1) : ~PartsOf(Upto(body, k), b).ok
TypeRead == IsMultipart(Type) /\ Boundary(Type) = b /\ Len(b) <= MaxBoundary

(* The form, with the uploads stored under t1, t2, .. *)
Tmp(i) == <<116, 48 + i>>
Form(ps) == JoinWith([i \in 1..Len(ps) |-> ps[i].name \o <<61>> \o (IF ps[i].file THEN ps[i].fname \o sTmpFile \o Tmp(i) ELSE ps[i].content)], <<38>>)
Stored == {[n |-> Tmp(i), x |-> parts[i].content] : i \in {k \in 1..Len(parts) : parts[k].file}}
FormSaysSo == fin # <<>> => /\ IsForm(parts, Form(parts), Stored, <<>>)
                            /\ (\A i \in 1..Len(parts) : ~HasC(parts[i].content, 38)) => ~IsForm(parts, Form(parts) \o <<38>>, Stored, <<>>)
                            /\ IsForm(parts, Form(parts) \o B("&id=7"), Stored, B("id=7"))
(* Another content in the file that the form names is noticed *)
FilesMatter == fin # <<>> => \A i \in 1..Len(parts) : parts[i].file =>
                 ~IsForm(parts, Form(parts), {[u EXCEPT !.x = IF u.n = Tmp(i) THEN Append(@, 0) ELSE @] : u \in Stored}, <<>>)
Emit == IF fin = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> Type, b |-> Body]))
=============================================================================
