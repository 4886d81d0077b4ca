----------------------------- MODULE MC_Session -----------------------------
(* Requests with a few headers that say, or seem to say, which session they belong to.  Checks that the session does not
   depend on the case of names, on other headers or on their order; emits every combination.                            *)
EXTENDS HttpReq, Json, TLC
CONSTANTS MaxHdrs, Values_, Cookies_

Hd(n, v) == [name |-> n, value |-> v, line |-> n \o B(": ") \o v]
Rep(ch, k) == [i \in 1..k |-> ch]
FullValues == {<<>>, B("a"), B("a b=;c"), Rep(120, 63), Rep(120, 64), B("WSSESSION=q")}
FullCookies == {<<>>, B("WSSESSION=c"), B("a=b; WSSESSION=d"), B("XWSSESSION=e"), B("WSSESSION="), B("WSSESSION=f; WSSESSION=g"),
                B(";WSSESSION=h ;"), B("wssession=i"), B("a=WSSESSION=j"), B("WSSESSION=k=l"), B("WSSESSION=") \o Rep(121, 64), B("q; WSSESSION=") \o Rep(122, 63) \o B(";r")}
SomeValues == {<<>>, B("a"), Rep(120, 64)}
SomeCookies == {<<>>, B("WSSESSION=c"), B("a=b; WSSESSION=d"), B("XWSSESSION=e"), B("WSSESSION="), B("a=WSSESSION=j")}
Decoys == {Hd(B("X-Sessions"), B("z")), Hd(B("X-Sess"), B("z")), Hd(B("Set-Cookie"), B("WSSESSION=z"))}
Hdrs == {Hd(n, v) : n \in {B("X-Session"), B("x-SESSION"), B("Authorization")}, v \in Values_}
        \cup {Hd(n, v) : n \in {B("Cookie"), B("COOKIE")}, v \in Cookies_} \cup Decoys

VARIABLES hs, static
Init == hs = <<>> /\ static \in BOOLEAN
Add == Len(hs) < MaxHdrs /\ \E h \in Hdrs : hs' = Append(hs, h) /\ UNCHANGED static
Next == Add
Spec == Init /\ [][Next]_<<hs, static>>

Ses == Sessions(hs)
Request == (IF static THEN B("GET /a.css HTTP/1.1") ELSE B("GET /api/e HTTP/1.1")) \o CRLF \o Concat([i \in 1..Len(hs) |-> hs[i].line \o CRLF]) \o CRLF
ReadBack == Parse(Request).cls = "ok" /\ Parse(Request).sessions = Ses
Some_ == Ses # {} /\ \A s \in Ses : Len(s) <= MaxSession
NotInvented == \A s \in Ses : s = <<>> \/ \E i \in 1..Len(hs) : hs[i] \notin Decoys /\ Contains(hs[i].value, s)
DecoysIrrelevant == Ses = Sessions(Filter(hs, LAMBDA h : h \notin Decoys))
CaseIrrelevant == Ses = Sessions([i \in 1..Len(hs) |-> [hs[i] EXCEPT !.name = Lower(@)]])
OrderIrrelevant == Ses = Sessions([i \in 1..Len(hs) |-> hs[Len(hs) + 1 - i]])
HeadersFirst == (\E i \in 1..Len(hs) : EqNC(hs[i].name, B("X-Session")) /\ hs[i].value # <<>>) /\ (\A i \in 1..Len(hs) : hs[i].value # <<>>)
                => <<>> \notin Ses /\ B("c") \notin Ses
Emit == PrintT("@@" \o ToJson([s |-> Request]))
=============================================================================
