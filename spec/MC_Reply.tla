------------------------------ MODULE MC_Reply ------------------------------
(* Every kind of answer with payloads that are made to confuse: written as a response and read again there is one response,
   of that status, with that body, and none when it stops early.  Emits the routes that answer so.                        *)
EXTENDS HttpResp, Json, TLC
CONSTANTS Kinds, Payloads, Statuses

Rep(ch, k) == [i \in 1..k |-> ch]
Confusing == {<<>>, B("x"), B("{}"), B("{\"a\":\"b\"}"), CRLF \o CRLF, CRLF, B("HTTP/1.1 200 OK") \o CRLF \o B("Content-Length: 1") \o CRLF \o CRLF, B("%s%n%d%%"), B("a: b") \o CRLF,
              Rep(97, 63), Rep(97, 64), Rep(97, 255), Rep(97, 256), Rep(97, 511), Rep(97, 512), Rep(97, 1023), Rep(97, 1024), Rep(97, 1025), Rep(97, 2048), Rep(97, 4096), Rep(97, 10000), Rep(37, 100)}
Singles == {<<ch>> : ch \in 1..255}
Escapes == Singles \cup {Rep(ch, k) : ch \in {34, 92, 1, 200}, k \in {2, 63, 170, 255, 512, 1023}} \cup {<<>>}
AllStatus == KnownStatus \cup {0, -1, 99, 100, 202, 204, 301, 304, 402, 405, 418, 499, 501, 503, 999}
ManyStatus == (-1)..600
One == {200}
Few == {0, 1, 2, 5}
Words == {<<>>, B("x"), Rep(97, 63), Rep(97, 300), Rep(97, 3000)}
(* Kinds of handlers, see harness/vh.c *)
Plain == {0, 3}
Bare == {1, 2, 4, 5, 6, 8, 10, 16, 18}
Errors == {7, 9, 11}
WithStatus == {13, 14, 15}
Lists == {12}

VARIABLES rt, fk
Init == rt \in [hk : Kinds, st : Statuses, pl : Payloads] /\ fk = 0
Next == fk = 0 /\ fk' \in 1..3 /\ UNCHANGED rt
Spec == Init /\ [][Next]_<<rt, fk>>

HexD == B("0123456789abcdef")
Esc(s) == Concat([i \in 1..Len(s) |-> IF s[i] \in {34, 92} THEN <<92, s[i]>> ELSE IF s[i] < 32 THEN B("\\u00") \o <<HexD[s[i] \div 16 + 1], HexD[s[i] - 16 * (s[i] \div 16) + 1]>> ELSE <<s[i]>>])
ErrorJson(code, m) == B("{\"code\":\"") \o code \o B("\",\"message\":\"") \o Esc(m) \o B("\"}")
BodyOf == CASE rt.hk \in {0, 3, 13, 14, 15} -> rt.pl
            [] rt.hk = 7 -> ErrorJson(B("E7"), rt.pl)
            [] rt.hk = 9 -> ErrorJson(B("E9"), rt.pl)
            [] rt.hk = 11 -> ErrorJson(B("UNKNOWN"), rt.pl)
            [] rt.hk = 12 -> ListBody(rt.st, rt.pl)
            [] OTHER -> <<>>
Write == sVersion \o Dec(StatusOf(rt)) \o B(" Reason") \o CRLF \o sServer \o B(": w") \o CRLF
         \o (IF WantsJson(rt) THEN sCType \o B(": ") \o sJson \o CRLF ELSE <<>>)
         \o sCLen \o B(": ") \o Dec(Len(BodyOf)) \o CRLF \o CRLF \o BodyOf
ReadBack == ~Silent(rt) => LET p == ParseResp(Write)
                           IN p.ok /\ p.status = StatusOf(rt) /\ p.body = BodyOf /\ BodyOk(rt, p.body, <<>>) /\ p.hascl /\ p.onecl
Judged == ~Silent(rt) /\ BodyOf # <<>> => /\ ~BodyOk(rt, Upto(BodyOf, Len(BodyOf) - 1), <<>>)
                                          /\ ~BodyOk(rt, BodyOf \o <<120>>, <<>>)
WholeOnly == ~Silent(rt) => LET w == Write IN \A k \in 1..(IF Len(w) > 300 THEN 100 ELSE Len(w)) : ~ParseResp(Upto(w, Len(w) - k)).ok
NotTwo == ~Silent(rt) => ~ParseResp(Write \o Write).ok
Emit == PrintT("@@" \o ToJson([hk |-> rt.hk, fk |-> fk, st |-> rt.st, pl |-> rt.pl]))
=============================================================================
