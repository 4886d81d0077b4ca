------------------------------ MODULE HttpReq ------------------------------
(* What a request is: from the bytes a client sent on one connection to the request a handler must see.

   Parse(s).cls is
     "incomplete"  the client stopped before the end of the header section or of the body
     "ok"          a well formed request within the documented sizes
     "badmethod"   well formed, but of a method the server does not know
     "longurl"     well formed, but the target is longer than the documented size
     "wild"        anything else: nothing is promised about what a handler sees                       *)
EXTENDS Bytes

MaxUrl == 511
MaxLine == 1023
MaxName == 63
MaxValue == 255
MaxHeaders == 20
MaxSession == 63
MaxIp == 24
MaxBoundary == 70

Methods == {B("GET"), B("POST"), B("PUT"), B("DELETE")}
ApiMount == B("/api")
hContentType == B("Content-Type")
hContentLength == B("Content-Length")
hRealIp == B("X-Real-IP")
hSession == {B("X-Session"), B("Authorization")}
hCookie == B("Cookie")
hReferer == B("Referer")
hUserAgent == B("User-Agent")
cookieName == B("WSSESSION=")
multipartType == B("multipart/form-data")
boundaryParam == B("boundary=")
NoValue == <<-1>>
(* The headers that the server itself reads *)
hSpecial == {hContentType, hContentLength, hRealIp, hCookie, hReferer, hUserAgent} \cup hSession

(* Lines of a header section without its line ends *)
LinesOf(h) == LET p == Pieces(h, LF)
              IN [i \in 1..Len(p) |-> IF i < Len(p) THEN Upto(p[i], Len(p[i]) - 1) ELSE p[i]]

HeaderOf(line) == LET c == FindC(line, 58, 1)
                  IN [ok |-> c > 1 /\ Visible(Upto(line, c - 1)),
                      name |-> Upto(line, c - 1),
                      value |-> IF c = 0 THEN <<>> ELSE Trim(From(line, c + 1)),
                      long |-> Len(line) + 2 > MaxLine,
                      (* longer than a line can be: how much is understood of a header that the server itself reads is open *)
                      open |-> Len(line) + 2 > MaxLine /\ (c > MaxName + 1 \/ \E n \in hSpecial : EqNC(Upto(line, c - 1), n))]

Named(hs, n) == {i \in 1..Len(hs) : EqNC(hs[i].name, n)}
Values(hs, n) == {hs[i].value : i \in Named(hs, n)}
(* Value of the first of the headers a handler can ask for, empty when there is none *)
HeaderValue(hs, n) ==
  LET v == First(1, Len(Cut(hs, MaxHeaders)), LAMBDA i : EqNC(hs[i].name, n))
  IN IF v = 0 THEN <<>> ELSE hs[v].value

(* Values of the WSSESSION cookies of a Cookie header *)
CookieValues(v) ==
  LET ps == Pieces(v, 59)
      one(p) == LET t == LTrim(p) IN IF StartsWith(t, cookieName)
                THEN LET w == From(t, Len(cookieName) + 1)
                         e == First(1, Len(w), LAMBDA i : IsSpace(w[i]))
                     IN {Cut(IF e = 0 THEN w ELSE Upto(w, e - 1), MaxSession)}
                ELSE {}
  IN UNION {one(ps[i]) : i \in 1..Len(ps)}

Sessions(hs) ==
  LET given == {RTrim(Cut(hs[i].value, MaxSession)) : i \in {j \in 1..Len(hs) : \E n \in hSession : EqNC(hs[j].name, n)}}
      cookies == UNION {CookieValues(v) : v \in Values(hs, hCookie)}
      fromCookie == IF cookies = {} THEN {<<>>} ELSE cookies
  IN IF given = {} THEN fromCookie ELSE IF <<>> \in given THEN given \cup fromCookie ELSE given

MediaType(v) == LET c == FindC(v, 59, 1) IN Trim(IF c = 0 THEN v ELSE Upto(v, c - 1))

(* The boundary of a multipart request, <<>> when the content type has none *)
Boundary(v) ==
  LET p == FindNC(v, boundaryParam, 1)
      r == From(v, p + Len(boundaryParam))
      quoted == r # <<>> /\ r[1] = QUOTE
      e == IF quoted THEN FindC(r, QUOTE, 2) ELSE FindC(r, 59, 1)
  IN IF p = 0 THEN <<>>
     ELSE IF quoted THEN (IF e = 0 THEN <<>> ELSE SubSeq(r, 2, e - 1))
     ELSE Trim(IF e = 0 THEN r ELSE Upto(r, e - 1))
IsMultipart(v) == StartsWithNC(v, multipartType)

Wild == [cls |-> "wild"]

Parse(s) ==
  LET e == Find(s, <<13, 10, 13, 10>>, 1)
      head == Upto(s, e - 1)
      rest == From(s, e + 4)
      lines == LinesOf(head)
      req == Pieces(lines[1], SP)
      hs == [i \in 1..(Len(lines) - 1) |-> HeaderOf(lines[i + 1])]
      clen == Values(hs, hContentLength)
      n == IF clen = {} THEN 0 ELSE Val(CHOOSE v \in clen : TRUE)
      url == req[2]
      q == FindC(url, 63, 1)
      types == Values(hs, hContentType)
      api == StartsWithNC(url, ApiMount)
      pathpart == IF q = 0 THEN url ELSE Upto(url, q - 1)
      ips == {Cut(v, MaxIp) : v \in Values(hs, hRealIp)}
      base == [cls |-> "ok", line |-> lines[1], method |-> req[1], url |-> url, api |-> api,
               path |-> IF api THEN From(pathpart, Len(ApiMount) + 1) ELSE pathpart,
               query |-> IF q = 0 THEN <<>> ELSE From(url, q + 1),
               hs |-> hs, sessions |-> Sessions(hs),
               ctypes |-> IF types = {} THEN {NoValue} ELSE {MediaType(v) : v \in types},
               ips |-> ips,
               multipart |-> \E v \in types : IsMultipart(v) /\ Boundary(v) # <<>>,
               boundary |-> IF types = {} THEN <<>> ELSE Boundary(CHOOSE v \in types : TRUE),
               body |-> Upto(rest, n), headersOnly |-> FALSE]
  IN IF ~EmptyLine(s) THEN [cls |-> "incomplete", headersOnly |-> FALSE]
     ELSE IF e = 0 \/ ~CrLfLines(head) THEN Wild
     ELSE IF Len(req) # 3 \/ \E i \in 1..3 : req[i] = <<>> \/ \E k \in 1..Len(req[i]) : req[i][k] <= 32 THEN Wild
     ELSE IF \E i \in 1..Len(hs) : ~hs[i].ok \/ hs[i].open THEN Wild
     ELSE IF ~(\E m \in Methods : StartsWithNC(req[1], m)) THEN
        (IF Len(req[1]) > 200 THEN Wild ELSE [cls |-> "badmethod", line |-> lines[1], hs |-> hs, ips |-> ips, url |-> url])
     ELSE IF Len(req[1]) > 200 THEN Wild
     ELSE IF Len(lines[1]) + 2 > MaxLine THEN Wild
     ELSE IF Len(url) > MaxUrl THEN [cls |-> "longurl", line |-> lines[1], hs |-> hs, ips |-> ips, url |-> url]
     ELSE IF \E v \in clen : ~AllDigits(v) \/ Len(v) > 8 THEN Wild
     ELSE IF Cardinality(clen) > 1 \/ Cardinality(types) > 1 THEN Wild
     ELSE IF \E v \in types : IsMultipart(v) /\ FindNC(v, boundaryParam, 1) # 0
                              /\ (Boundary(v) = <<>> \/ Len(Boundary(v)) > MaxBoundary) THEN Wild
     ELSE IF Len(rest) < n THEN [cls |-> "incomplete", headersOnly |-> TRUE, api |-> api]
     ELSE base

(* A header value as a handler may see it: whole when it fits, otherwise cut *)
ValueSeen(sent, got, max) == IF Len(sent) <= max THEN got = sent ELSE StartsWith(sent, got) /\ Len(got) <= max
=============================================================================
