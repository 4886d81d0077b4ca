------------------------------ MODULE MC_Conn ------------------------------
(* One connection as a state machine: a client that sends a request piece by piece, and ends, half closes or disconnects at
   any point; a server that reads byte by byte (line by line, then the body) and acts once, when the request is complete.
   Checks that the reader, however the bytes are cut, comes to what HttpReq says of the bytes as a whole, that nothing is
   acted on early and that every connection comes to its end.  Emits every way to send each of the requests.              *)
EXTENDS HttpReq, Json, TLC
CONSTANTS MaxSegs, Wanted

c == <<CR>>
n == <<LF>>
mpBody == << B("--b"), c, n, B("Content-Disposition: form-data; name=\"k\""), c, n, c, n, B("v"), c, n, B("--b"), B("--") >>
mpFile == << B("--b"), CRLF, B("Content-Disposition: form-data; name=\"k\"; filename=\"f\""), CRLF, B("Content-Type: text/plain"), CRLF, CRLF, <<118, 10>>, CRLF, B("--b"), B("--"), CRLF >>
Requests ==
  << << B("GET "), B("/api/j"), B(" HTTP/1.1"), c, n, c, n >>,
     << B("POST /api/e"), B("?a=b"), B(" HTTP/1.1"), c, n, B("Content-Length: "), B("3"), c, n, c, n, B("a"), B("bc") >>,
     << B("GET /api/p/x HTTP/1.1"), c, n, B("X-Session:"), B(" ab"), c, n, B("Cookie: WSSESSION=cd"), c, n, c, n >>,
     << B("POST /api/p/9 HTTP/1.1"), CRLF, B("content-length:21 "), c, n, c, n, c, n, c, n, B("GET /api/j HTTP/1"), n >>,
     << B("GET /index.html HTTP/1.1"), c, n, B("Host: h"), c, n, B("User-Agent: u"), B(" a"), c, n, c, n >>,
     << B("PUT /api/e HTTP/1.1"), c, n, B("X-Token: yes"), c, n, B("Content-Length: 0"), c, n, c, n >>,
     << B("BREW /api/e HTTP/1.1"), c, n, B("Content-Length: 1"), c, n, c, n, B("x") >>,
     << B("POST /api/e HTTP/1.1"), CRLF, B("Content-Type: multipart/form-data; boundary=b"), CRLF, B("Content-Length: "), Dec(Len(Concat(mpBody))), CRLF, CRLF >> \o mpBody,
     << B("POST /api/f HTTP/1.1"), CRLF, B("Content-Length: "), Dec(Len(Concat(mpFile))), CRLF, B("Content-Type: multipart/form-data; boundary=\"b\""), CRLF, CRLF >> \o mpFile,
     << B("DELETE /api/e HTTP/1.1"), c, n, B("Content-Length: 2"), CRLF, B("Content-Type: t"), c, n, c, n, B("o"), B("k"), B("GET /api/j HTTP/1.1"), CRLF, CRLF >> >>

VARIABLES r, at, segs, end, rd, acted
vars == <<r, at, segs, end, rd, acted>>

(* The server's reader: phase, the lines so far, the line it is in, what the body still needs *)
Reader0 == [phase |-> "head", lines |-> <<>>, line |-> <<>>, need |-> 0, body |-> <<>>]
Length(ls) == LET v == {HeaderOf(ls[i]).value : i \in {k \in 2..Len(ls) : EqNC(HeaderOf(ls[k]).name, hContentLength)}}
              IN IF v = {} THEN 0 ELSE Val(CHOOSE x \in v : TRUE)
Byte(q, b) ==
  IF q.phase = "done" THEN q
  ELSE IF q.phase = "body" THEN [q EXCEPT !.body = Append(@, b), !.need = @ - 1, !.phase = IF q.need = 1 THEN "done" ELSE "body"]
  ELSE IF b # LF THEN [q EXCEPT !.line = Append(@, b)]
  ELSE LET whole == IF q.line # <<>> /\ q.line[Len(q.line)] = 13 THEN Upto(q.line, Len(q.line) - 1) ELSE q.line
       IN IF whole # <<>> THEN [q EXCEPT !.lines = Append(@, whole), !.line = <<>>]
          ELSE LET k == Length(q.lines) IN [q EXCEPT !.line = <<>>, !.need = k, !.phase = IF k = 0 THEN "done" ELSE "body"]
RECURSIVE Feed(_, _, _)
Feed(q, s, i) == IF i > Len(s) THEN q ELSE Feed(Byte(q, s[i]), s, i + 1)

Init == r \in Wanted /\ at = 0 /\ segs = <<>> /\ end = "no" /\ rd = Reader0 /\ acted = "no"
Send(k) == /\ end = "no" /\ Len(segs) < MaxSegs /\ at + k <= Len(Requests[r])
           /\ LET s == Concat(SubSeq(Requests[r], at + 1, at + k))
              IN segs' = Append(segs, s) /\ rd' = Feed(rd, s, 1)
           /\ at' = at + k
           /\ UNCHANGED <<r, end, acted>>
End(how) == end = "no" /\ (how = "n" => at = Len(Requests[r])) /\ end' = how /\ UNCHANGED <<r, at, segs, rd, acted>>
Act == acted = "no" /\ rd.phase = "done" /\ acted' = "served" /\ UNCHANGED <<r, at, segs, end, rd>>
Drop == acted = "no" /\ rd.phase # "done" /\ end # "no" /\ acted' = "dropped" /\ UNCHANGED <<r, at, segs, end, rd>>
Next == (\E k \in 1..Len(Requests[r]) : Send(k)) \/ (\E h \in {"n", "s", "a"} : End(h)) \/ Act \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Act) /\ WF_vars(Drop)

All == Concat(segs)
Whole == Concat(Requests[r])
Complete == Parse(All).cls # "incomplete"
NeverEarly == acted = "served" => Complete
ReaderAgrees == IF Parse(All).cls = "badmethod" THEN rd.phase # "head" ELSE (rd.phase = "done") = Complete
SameRequest == Complete => LET p == Parse(All)
                           IN /\ p = Parse(Whole)
                              /\ rd.lines[1] = p.line
                              /\ Len(rd.lines) - 1 = Len(p.hs)
                              /\ \A i \in 1..Len(p.hs) : HeaderOf(rd.lines[i + 1]) = p.hs[i]
                              /\ (p.cls = "ok" => rd.body = p.body)
WholeComplete == at = Len(Requests[r]) => Complete
NothingLost == acted = "dropped" => at < Len(Requests[r])
Settles == (end # "no") ~> (acted # "no")
Once == [][acted # "no" => acted' = acted]_vars

Emit == IF end = "no" \/ acted # "no" THEN TRUE
        ELSE PrintT("@@" \o ToJson([r |-> r, cuts |-> [i \in 1..Len(segs) |-> Len(segs[i])], s |-> All, end |-> end]))
=============================================================================
