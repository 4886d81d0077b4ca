------------------------------- MODULE MC_Wild -------------------------------
(* Bytes that clients of all kinds may send: pieces of requests in any order.  Checks that every sequence of bytes has its
   class, that what is complete stays what it is whatever follows, and that nothing becomes complete but by what is sent.
   Emits every sequence.                                                                                                   *)
EXTENDS HttpReq, Json, TLC
CONSTANTS Max, Starts, Tokens

Rep(ch, k) == [i \in 1..k |-> ch]
All_ == {B("GET "), B("POST "), B("/api/e"), B("/"), B("/../secret.txt"), B(" HTTP/1.1"), CRLF, <<LF>>, B("Content-Length: 3"), B("Content-Length: -1"),
         B("Content-Length: 4294967297"), B(":"), <<NUL>>, B("abc"), B("Cookie: WSSESSION="), Rep(104, 1030), <<255>>,
         B("Content-Type: multipart/form-data; boundary=")}
Core_ == {B("GET "), B("/api/e"), B(" HTTP/1.1"), CRLF, <<LF>>, B("Content-Length: 3"), B("abc"), B(":")}
NoStart == {<<>>}
AllStarts == {<<>>, B("GET /api/e HTTP/1.1") \o CRLF, B("POST /api/p/1 HTTP/1.1") \o CRLF \o B("Content-Length: 3") \o CRLF}

VARIABLES s, n
Init == s \in Starts /\ n = 0
Next == n < Max /\ n' = n + 1 /\ \E t \in Tokens : s' = s \o t
Spec == Init /\ [][Next]_<<s, n>>

Classes == {"incomplete", "ok", "badmethod", "longurl", "wild"}
Classified == Parse(s).cls \in Classes
Final == [][Parse(s).cls \in {"ok", "badmethod", "longurl"} => Parse(s') = Parse(s)]_<<s, n>>
Grows == [][Parse(s).cls = "incomplete" /\ ~Parse(s).headersOnly => Parse(s').cls = "incomplete" \/ EmptyLine(s')]_<<s, n>>
Sane == Parse(s).cls = "ok" => LET p == Parse(s) IN Len(p.body) <= Len(s) /\ (\E m \in Methods : StartsWithNC(p.method, m)) /\ p.sessions # {} /\ Len(p.url) <= MaxUrl
Emit == IF n = 0 THEN TRUE ELSE PrintT("@@" \o ToJson([s |-> s]))
=============================================================================
