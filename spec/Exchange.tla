------------------------------ MODULE Exchange ------------------------------
(* One connection from the outside: what the server may do in answer to the bytes of one client.

   cf   configuration: routes (t template, hk, fk, st, pl), tree, index, favicon, ask (header names a handler asks
        for), limits, allow, deny (files), www (root folder), okopen (files the server may read besides), secrets
   x    the exchange as recorded: ip, req (bytes sent), mode ("n" client waits, "s" half close after sending,
        "a" abort), tls, resp (bytes received), closed, settled, evs (filters and handlers that ran, in order,
        with what they saw), log (access log lines), opens (files opened), up (uploads that were stored), anom

   Judge returns the set of <<property, what>> pairs that the exchange violates.                              *)
EXTENDS HttpReq, Router, HttpResp, Limits, IpFilter, Multipart

When(c, p, what) == IF c THEN {<<p, what>>} ELSE {}
WhenAll(c, ps, what) == IF c THEN {<<p, what>> : p \in ps} ELSE {}

Templates(cf) == [i \in 1..Len(cf.routes) |-> cf.routes[i].t]
Handlers(x) == SelectIdx(x.evs, LAMBDA e : e.k = "h")
Filters(x) == SelectIdx(x.evs, LAMBDA e : e.k = "f")

(* ---- what handlers and filters see ---- *)
(* The header values by name, for names among the documented sizes *)
HeadersSeen(r, c) ==
  LET n == IF Len(r.hs) < MaxHeaders THEN Len(r.hs) ELSE MaxHeaders
  IN /\ Len(c.hdrs) = n
     /\ \A i \in 1..n : /\ ValueSeen(r.hs[i].name, c.hdrs[i][1], MaxName)
                        /\ IF r.hs[i].long THEN StartsWith(r.hs[i].value, c.hdrs[i][2])
                           ELSE ValueSeen(r.hs[i].value, c.hdrs[i][2], MaxValue)
AskOk(cf, r, c) ==
  \A k \in 1..Len(cf.ask) :
    LET hs == Cut(r.hs, MaxHeaders)
        named == {i \in 1..Len(hs) : EqNC(hs[i].name, cf.ask[k])}
        v == First(1, Len(hs), LAMBDA i : i \in named)
    IN IF Cardinality(named) > 1 THEN \E i \in named : ValueSeen(hs[i].value, c.asked[k], MaxValue)
       ELSE IF v = 0 THEN c.asked[k] = <<>>
       ELSE IF hs[v].long THEN TRUE ELSE ValueSeen(hs[v].value, c.asked[k], MaxValue)

FormOk(r, t, c, stored) ==
  LET mp == IF r.multipart THEN PartsOf(r.body, r.boundary) ELSE [ok |-> FALSE]
      extra == IF t # <<>> /\ HasParam(t)
               THEN Param(t) \o <<61>> \o From(Target(r.method, r.path), Len(Prefix(t)) + 1) ELSE <<>>
  IN IF r.multipart /\ r.body # <<>>
     THEN ~mp.ok \/ IsForm(mp.parts, c.form, stored, extra)
     ELSE c.form = (IF extra = <<>> THEN CStr(r.body) ELSE FormWith(t, r.method, r.path, CStr(r.body)))

Basics(r, x, c) ==
  When(c.method # r.method, "C10", "method seen differs")
  \cup When(c.path # r.path, "C10", "path seen differs")
  \cup When(c.query # r.query, "C10", "query string seen differs")
  \cup When(c.url # r.url, "C10", "URL seen differs")
  \cup When(c.ctype \notin r.ctypes, "C10", "content type seen differs")
  \cup When(c.session \notin r.sessions, "C22", "session seen differs")
  \cup When(c.ip \notin (IF r.ips = {} THEN {x.ip} ELSE r.ips), "C10", "client address seen differs")

FormTags(r, t) == (IF r.multipart THEN {"C12"} ELSE {"C10"}) \cup (IF HasParam(t) THEN {"C08"} ELSE {})

SeenByHandler(cf, r, x, c, t, stored) ==
  Basics(r, x, c)
  \cup When(~HeadersSeen(r, c), "C10", "headers seen differ")
  \cup When(~AskOk(cf, r, c), "C10", "header asked for by name differs")
  \cup WhenAll(~FormOk(r, t, c, stored), FormTags(r, t), "form seen differs")
  \cup When(c.raw # NoValue /\ ~r.multipart /\ c.raw # r.body, "C10", "body bytes seen differ")

(* ---- responses ---- *)
BodyIs(body, want) == body = want \/ body = want \o CRLF
ReplyOk(cf, rt, p, x, sent) ==
  When(p.status # StatusOf(rt), "C13", "status differs")
  \cup When(WantsJson(rt) /\ sJson \notin HdrVals(p, sCType), "C13", "JSON reply without its content type")
  \cup When(WantsLength(rt) /\ ~p.hascl, "C13", "no Content-Length")
  \cup When(rt.hk = 20 /\ HdrVals(p, sCType) # {TypeOfMime(rt.pl)}, "C07", "content type differs from the one asked for")
  \cup When(rt.hk \notin {19, 20} /\ ~(BodyOk(rt, p.body, sent)
                                       \/ (EndsWith(p.body, CRLF) /\ BodyOk(rt, Upto(p.body, Len(p.body) - 2), sent))), "C13", "body differs")

FilterStatus(fk) == IF fk = 3 THEN 403 ELSE 401

(* Session headers of a static reply *)
SessionEcho(p, sessions) ==
  \E s \in sessions :
    IF s = <<>> THEN HdrCount(p, sXSession) = 0 /\ HdrCount(p, sSetCookie) = 0
    ELSE /\ HdrCount(p, sXSession) = 1 /\ HdrVals(p, sXSession) = {s}
         /\ HdrCount(p, sSetCookie) = 1 /\ HdrVals(p, sSetCookie) = {sWSSession \o s}

StaticOk(cf, r, p) ==
  LET sv == Served(cf.tree, cf.index, cf.favicon, r.path)
      named == {i \in sv : i # 0}
      climbs == ~IsClean(Segments(r.path))
      tags == IF climbs THEN {"C06", "C07"} ELSE {"C07"}
  IN IF ~EqNC(r.method, B("GET")) THEN When(p.status # 400, "C07", "static target, method other than GET: status is not 400")
     ELSE IF p.status = 404 THEN WhenAll(0 \notin sv, tags, "404 though there is a file to serve")
     ELSE IF p.status # 200 THEN WhenAll(TRUE, tags, "neither 200 nor 404")
     ELSE LET right == {i \in named : cf.tree[i].x = p.body}
          IN WhenAll(right = {}, tags, "not the bytes of the file that the target names")
             \cup When(right # {} /\ ~\E i \in right : \E t \in TypesOf(cf.tree[i].p) \cup (IF Extension(cf.tree[i].p) = <<>> /\ HasC(r.path, 46) THEN {tOctet} ELSE {}) : HdrVals(p, sCType) = {t},
                       "C07", "content type does not follow from the file name")
             \cup When(~SessionEcho(p, r.sessions), "C22", "session not echoed as it was given")

(* ---- access log ---- *)
LogMid(ip) == ip \o B(" - - [")
IsTime(t) == /\ Len(t) = 26 /\ t[3] = 47 /\ t[7] = 47 /\ t[12] = 58 /\ t[15] = 58 /\ t[18] = 58 /\ t[21] = 32
             /\ \A i \in {1, 2, 8, 9, 10, 11, 13, 14, 16, 17, 19, 20} : IsDigit(t[i])
IsSecs(s) == LET d == FindC(s, 46, 1) IN d > 1 /\ AllDigits(Upto(s, d - 1)) /\ AllDigits(From(s, d + 1))
LogLine(line, ips, reqline, status, bytes, refs, uas) ==
  /\ EndsWith(line, <<LF>>)
  /\ \E ip \in ips :
       /\ StartsWith(line, LogMid(ip))
       /\ LET k == Len(LogMid(ip))
              tail == From(line, k + 28)
          IN /\ Len(line) > k + 28 /\ line[k + 27] = 93
             /\ IsTime(SubSeq(line, k + 1, k + 26))
             /\ \E ref \in refs : \E ua \in uas :
                  LET want == B(" \"") \o reqline \o B("\" ") \o Dec(status) \o <<SP>> \o Dec(bytes)
                              \o B(" \"") \o ref \o B("\" \"") \o ua \o B("\" ")
                  IN StartsWith(tail, want) /\ IsSecs(SubSeq(tail, Len(want) + 1, Len(tail) - 1))
(* Any line of the log *)
LooksLikeLog(line) == LET c == FindC(line, 93, 1) IN
  EndsWith(line, <<LF>>) /\ c # 0 /\ FindC(Upto(line, Len(line) - 1), LF, 1) = 0 /\ Len(line) > 40

HdrLogged(hs, n) == LET v == {Cut(hs[i].value, MaxValue) : i \in {k \in 1..Len(Cut(hs, MaxHeaders)) : EqNC(hs[k].name, n)}}
                    IN IF v = {} THEN {<<>>} ELSE v
LongHdr(hs, n) == \E i \in 1..Len(hs) : EqNC(hs[i].name, n) /\ (hs[i].long \/ Len(hs[i].value) > MaxValue)

(* What the log must say about an answered exchange; early is TRUE when the answer may precede the headers *)
LogLineOk(line, x, r, status, early) ==
  LET ips == IF early THEN r.ips \cup {x.ip} ELSE IF r.ips = {} THEN {x.ip} ELSE r.ips
      refs == HdrLogged(r.hs, hReferer) \cup (IF early THEN {<<>>} ELSE {})
      uas == HdrLogged(r.hs, hUserAgent) \cup (IF early THEN {<<>>} ELSE {})
  IN LogLine(line, ips, r.line, status, Len(x.resp), refs, uas)

(* ---- the whole ---- *)
Rules(cf) == ParseLimits(cf.limits)
(* A rule whose maximum is 0 admits nobody *)
AlwaysRefused(cf, url) == ~MayAdmit(Rules(cf), url, <<>>, {})

Opened(cf, p) == LET r == Resolve(Segments(p), <<>>)
                 IN \/ PathOf(r) \in Range(cf.okopen)
                    \/ \E d \in Range(cf.okdirs) : StartsWith(PathOf(r), d \o <<47>>)
Contained(cf, x) ==
  WhenAll(\E i \in 1..Len(cf.secrets) : Contains(x.resp, cf.secrets[i]), {"C06"}, "content from outside the document root sent")
  \cup WhenAll(\E i \in 1..Len(x.opens) : ~Opened(cf, x.opens[i]), {"C06"}, "file outside the document root opened")

(* Whatever the client did *)
Always(cf, x) ==
  Contained(cf, x)
  \cup WhenAll(x.alive = 0, {"C16", "ANY"}, "the server process ended")
  \cup WhenAll(x.alive = 1 /\ x.closed = 0, {"C02", "C16", "ANY"}, "connection not closed")
  \cup WhenAll(x.alive = 1 /\ x.closed = 1 /\ x.settled = 0, {"C16", "ANY"}, "worker not available again")
  \cup WhenAll(x.anom > 0, {"C02"}, "descriptor used before it was given or after it was closed")
  \cup When(x.raw = 0, "C20", "bytes outside TLS records sent")
  \cup When(x.cn = 0 /\ x.resp # <<>>, "C20", "the client cannot tell the end from a cut: no closing alert")

GoneEarly(x) == x.mode \in {"a", "A"}

(* The log of exchanges that were in progress together is judged as a whole, see TraceSeq *)
Answered(cf, x, r, p, status, early) == IF x.k \in {"solo", "with", "slow"} THEN {} ELSE
  When(Len(x.log) # 1, "C14", "an answered request has not exactly one line in the access log")
  \cup (IF Len(x.log) = 1 /\ p.ok
        THEN When(~LogLineOk(x.log[1], x, r, p.status, early), "C14", "access log line is not accurate") ELSE {})

NoReply(x) == IF x.resp = <<>> THEN WhenAll(TRUE, {"C13", "ANY"}, "no response")
              ELSE When(TRUE, "C13", "response is not well formed")

RefusedOk(cf, x, r, p, status, tag, what) ==
  When(x.evs # <<>>, tag, "handler or filter ran for a request that is refused")
  \cup (IF GoneEarly(x) THEN {} ELSE
        When(x.resp = <<>>, tag, what \o ": no answer")
        \cup When(x.resp # <<>> /\ ~p.ok, "C13", "response is not well formed")
        \cup When(p.ok /\ p.status # status, tag, what \o ": other status")
        \cup Answered(cf, x, r, p, status, TRUE))

NothingActed(x, tag) ==
  When(x.evs # <<>>, tag, "handler or filter ran for an incomplete request")
  \cup When(x.up # <<>>, tag, "upload stored for an incomplete request")

Api(cf, x, r, p, stored) ==
  LET i == Route(Templates(cf), r.method, r.path)
      rt == cf.routes[i]
      fs == Filters(x)
      hs == Handlers(x)
      pass == rt.fk = 0 \/ (Len(fs) = 1 /\ x.evs[fs[1]].res = 1)
  IN IF i = 0
     THEN WhenAll(hs # <<>> \/ fs # <<>>, {"C08"} \cup (IF fs # <<>> THEN {"C09"} ELSE {}), "no route matches but a handler or filter ran")
          \cup (IF GoneEarly(x) THEN {} ELSE
                When(~p.ok \/ p.status # 400, "C08", "no route matches but the answer is not 400")
                \cup Answered(cf, x, r, p, 400, FALSE))
     ELSE
       When(rt.fk = 0 /\ fs # <<>>, "C09", "a filter ran for a route without filter")
       \cup When(rt.fk # 0 /\ Len(fs) # 1, "C09", "the filter did not run exactly once")
       \cup When(rt.fk # 0 /\ \E k \in 1..Len(fs) : x.evs[fs[k]].i # i, "C09", "the filter of another route ran")
       \cup When(rt.fk # 0 /\ hs # <<>> /\ (fs = <<>> \/ hs[1] < fs[1]), "C09", "the handler ran before the filter")
       \cup When(rt.fk # 0 /\ ~pass /\ hs # <<>>, "C09", "the handler ran though the filter refused")
       \cup WhenAll(pass /\ Len(hs) # 1, {"C08", "ANY"} \cup (IF rt.fk # 0 THEN {"C09"} ELSE {}), "the handler did not run exactly once")
       \cup When(\E k \in 1..Len(hs) : x.evs[hs[k]].i # i, "C08", "the handler of another route ran")
       \cup (IF \E k \in 1..Len(x.evs) : x.evs[k].i # i THEN {}
             ELSE UNION {SeenByHandler(cf, r, x, x.evs[hs[k]], rt.t, stored) : k \in 1..Len(hs)}
                  \cup (LET bad == UNION {Basics(r, x, x.evs[fs[k]])
                                          \cup When(~FormOk(r, rt.t, x.evs[fs[k]], stored), "C09", "form seen by the filter differs") : k \in 1..Len(fs)}
                        IN bad \cup When(bad # {}, "C09", "the filter saw another request")))
       \cup (IF GoneEarly(x) THEN When(Len(x.log) > 1, "C14", "more than one line in the access log")
             ELSE IF ~pass THEN
               (IF p.ok THEN {} ELSE NoReply(x))
               \cup When(p.ok /\ fs # <<>> /\ p.status # FilterStatus(rt.fk), "C13", "status differs")
               \cup Answered(cf, x, r, p, FilterStatus(rt.fk), FALSE)
             ELSE IF Silent(rt) THEN When(x.resp # <<>>, "C13", "something sent though there is no answer")
                                     \cup When(x.log # <<>>, "C14", "a line in the access log without an answer")
             ELSE IF ~p.ok THEN NoReply(x)
             ELSE ReplyOk(cf, rt, p, x, IF hs = <<>> THEN <<>> ELSE x.evs[hs[1]].sent)
                  \cup (IF rt.hk = 20 THEN When(x.log # <<>>, "C14", "a line in the access log though the program prints itself")
                        ELSE Answered(cf, x, r, p, StatusOf(rt), FALSE))
                  \cup (IF rt.hk = 19 THEN LET same == {k \in 1..Len(cf.tree) : cf.www \o cf.tree[k].p = rt.pl}
                                            IN When(~\E k \in same : p.body = cf.tree[k].x, "C07", "file content differs") ELSE {}))

(* With TLS: a connection whose handshake is never completed *)
RECURSIVE TlsRecords(_, _)
TlsRecords(b, i) == \/ i = Len(b) + 1
                    \/ /\ i + 4 <= Len(b)
                       /\ b[i] \in 20..23 /\ b[i + 1] = 3
                       /\ TlsRecords(b, i + 5 + b[i + 3] * 256 + b[i + 4])
HandshakeOk(cf, x) ==
  Always(cf, x)
  \cup When(x.evs # <<>>, "C20", "handler or filter ran without a TLS handshake")
  \cup When(x.up # <<>>, "C20", "upload stored without a TLS handshake")
  \cup When(x.log # <<>>, "C20", "a line in the access log without a TLS handshake")
  \cup When(x.opens # <<>> /\ \E i \in 1..Len(x.opens) : StartsWith(x.opens[i], cf.www), "C20", "file of the document root opened without a TLS handshake")
  \cup When(~TlsRecords(x.resp, 1), "C20", "bytes outside TLS records sent")
  \cup When(x.alive = 0 \/ x.closed = 0 \/ x.settled = 0, "C20", "the end of the connection without handshake is not dealt with")
  \cup When(~Allowed(cf.allow, cf.deny, x.ip) /\ x.resp # <<>>, "C05", "an address that is not allowed was served")

Judge(cf, x, stored) ==
  LET r == Parse(x.req)
      p == IF x.resp = <<>> THEN Malformed ELSE ParseResp(x.resp)
      denied == ~Allowed(cf.allow, cf.deny, x.ip)
  IN Always(cf, x) \cup
     (IF x.alive = 0 THEN {}
      ELSE IF denied THEN
        WhenAll(x.resp # <<>> \/ x.evs # <<>>, {"C05"}, "an address that is not allowed was served")
        \cup When(x.log # <<>>, "C14", "a line in the access log for a refused address")
      ELSE IF r.cls = "incomplete" THEN
        NothingActed(x, "C11")
        \cup When(p.ok /\ ~r.headersOnly /\ p.status \in {200, 201}, "C11", "an incomplete request was answered as if complete")
        \cup When(p.ok /\ r.headersOnly /\ r.api /\ p.status \in {200, 201}, "C11", "an incomplete request was answered as if complete")
        \cup When(x.resp # <<>> /\ ~p.ok /\ ~GoneEarly(x), "C13", "response is not well formed")
        \cup (IF GoneEarly(x) \/ x.k \in {"solo", "with", "slow"} THEN {} ELSE When(Len(x.log) # (IF x.resp = <<>> THEN 0 ELSE 1), "C14", "log does not match the answers"))
      ELSE IF r.cls = "wild" THEN
        When(x.resp # <<>> /\ ~p.ok /\ ~GoneEarly(x), "C13", "response is not well formed")
        \cup When(p.ok /\ p.status = 200 /\ x.evs = <<>> /\ ~\E i \in 1..Len(cf.tree) : cf.tree[i].x = p.body, "C06", "not the content of a file of the document root")
        \cup WhenAll(Len(Handlers(x)) > 1, {"C08"}, "more than one handler ran")
      ELSE IF r.cls = "badmethod" THEN RefusedOk(cf, x, r, p, 400, IF StartsWithNC(r.url, ApiMount) THEN "C08" ELSE "C07", "unknown method")
      ELSE IF r.cls = "longurl" THEN
        When(x.evs # <<>>, "C10", "handler or filter ran for a URL that is too long")
        \cup When(x.resp # <<>> /\ ~p.ok /\ ~GoneEarly(x), "C13", "response is not well formed")
        \cup When(p.ok /\ p.status = 200, "C10", "another URL than the given one was answered")
      ELSE IF x.k = "with" /\ cf.limits # <<>> /\ x.evs = <<>> /\ (GoneEarly(x) \/ (p.ok /\ p.status = 429)) THEN {}   \* see TraceServer
      ELSE IF AlwaysRefused(cf, r.url) THEN RefusedOk(cf, x, r, p, 429, "C03", "limit of zero")
      ELSE WhenAll(p.ok /\ p.status = 429 /\ (r.api => Handlers(x) = <<>>), {"C04", "ANY"}, "refused as too many without any limit reached")
           \cup (IF p.ok /\ p.status = 429 /\ Handlers(x) = <<>> THEN {}
                 ELSE IF r.api THEN Api(cf, x, r, p, stored)
                 ELSE IF GoneEarly(x) THEN When(x.evs # <<>>, "C08", "a handler ran for a static target")
                 ELSE When(x.evs # <<>>, "C08", "a handler ran for a static target")
                      \cup (IF ~p.ok THEN NoReply(x) \cup When(x.resp = <<>>, "C07", "no response")
                            ELSE StaticOk(cf, r, p) \cup Answered(cf, x, r, p, 0, FALSE))))
=============================================================================
