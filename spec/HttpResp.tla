------------------------------ MODULE HttpResp ------------------------------
(* Responses: what a well formed one is, and what each response helper must send. *)
EXTENDS StaticFiles

sVersion == B("HTTP/1.1 ")
sServer == B("Server")
sCType == B("Content-Type")
sCLen == B("Content-Length")
sJson == B("application/json")
sXSession == B("X-Session")
sSetCookie == B("Set-Cookie")
sWSSession == B("WSSESSION=")

KnownStatus == {200, 201, 400, 401, 403, 404, 429, 500}

RespHeader(line) == LET c == FindC(line, 58, 1)
                    IN [ok |-> c > 1 /\ Visible(Upto(line, c - 1)),
                        name |-> Upto(line, c - 1),
                        value |-> IF c = 0 THEN <<>> ELSE Trim(From(line, c + 1))]

Malformed == [ok |-> FALSE]
ParseResp(x) ==
  LET e == Find(x, <<13, 10, 13, 10>>, 1)
      head == Upto(x, e - 1)
      p == Pieces(head, LF)
      lines == [i \in 1..Len(p) |-> IF i < Len(p) THEN Upto(p[i], Len(p[i]) - 1) ELSE p[i]]
      hs == [i \in 1..(Len(lines) - 1) |-> RespHeader(lines[i + 1])]
      body == From(x, e + 4)
      cl == {i \in 1..Len(hs) : EqNC(hs[i].name, sCLen)}
  IN IF e = 0 THEN Malformed
     ELSE IF ~CrLfLines(head) THEN Malformed
     ELSE IF ~(StartsWith(lines[1], sVersion) /\ Len(lines[1]) > 13 /\ lines[1][13] = SP
               /\ \A i \in 10..12 : IsDigit(lines[1][i])) THEN Malformed
     ELSE IF \E i \in 1..Len(hs) : ~hs[i].ok THEN Malformed
     ELSE IF \E i \in cl : ~AllDigits(hs[i].value) \/ Len(hs[i].value) > 8 \/ Val(hs[i].value) # Len(body) THEN Malformed
     ELSE [ok |-> TRUE, status |-> Val(SubSeq(lines[1], 10, 12)), hs |-> hs, body |-> body, hascl |-> cl # {},
           onecl |-> Cardinality(cl) <= 1]

HdrVals(r, n) == {r.hs[i].value : i \in {j \in 1..Len(r.hs) : EqNC(r.hs[j].name, n)}}
HdrCount(r, n) == Cardinality({j \in 1..Len(r.hs) : EqNC(r.hs[j].name, n)})

(* Escaped text between the quotes of a JSON string: the value it stands for, <<-1>> when it is not valid *)
RECURSIVE Unescape(_, _)
HexV(c) == IF IsDigit(c) THEN c - 48 ELSE LowerC(c) - 87
Unescape(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 92 THEN
    (IF i = Len(s) THEN <<-1>>
     ELSE CASE s[i + 1] \in {34, 92, 47} -> <<s[i + 1]>> \o Unescape(s, i + 2)
            [] s[i + 1] = 98 -> <<8>> \o Unescape(s, i + 2)
            [] s[i + 1] = 102 -> <<12>> \o Unescape(s, i + 2)
            [] s[i + 1] = 110 -> <<10>> \o Unescape(s, i + 2)
            [] s[i + 1] = 114 -> <<13>> \o Unescape(s, i + 2)
            [] s[i + 1] = 116 -> <<9>> \o Unescape(s, i + 2)
            [] s[i + 1] = 117 /\ i + 5 <= Len(s) /\ \A k \in 2..5 : IsHex(s[i + k]) ->
                 LET v == HexV(s[i + 2]) * 4096 + HexV(s[i + 3]) * 256 + HexV(s[i + 4]) * 16 + HexV(s[i + 5])
                 IN IF v < 256 THEN <<v>> \o Unescape(s, i + 6) ELSE <<-1>>
            [] OTHER -> <<-1>>)
  ELSE IF s[i] < 32 \/ s[i] = 34 THEN <<-1>>
  ELSE <<s[i]>> \o Unescape(s, i + 1)

(* body is {"code":"C","message":"M"} for these values *)
IsErrorJson(body, code, msg) ==
  LET pre == B("{\"code\":\"") \o code \o B("\",\"message\":\"")
      mid == SubSeq(body, Len(pre) + 1, Len(body) - 2)
  IN /\ StartsWith(body, pre)
     /\ EndsWith(body, B("\"}"))
     /\ Unescape(mid, 1) = msg

(* What the embedding program answers, by the kind of its handler (see harness/vh.c).
   [none] nothing is sent; [raw] the program prints itself.                            *)
StatusOf(r) == CASE r.hk \in {0, 1, 12, 17, 19} -> 200 [] r.hk \in {2, 3} -> 201 [] r.hk = 4 -> 404 [] r.hk = 5 -> 401
                 [] r.hk \in {6, 7} -> 400 [] r.hk \in {8, 9} -> 403 [] r.hk \in {10, 11} -> 500 [] r.hk = 16 -> 429
                 [] OTHER -> r.st
Silent(r) == r.hk = 18 \/ (r.hk \in {13, 14, 15} /\ r.st \notin KnownStatus)
ListBody(n, p) == <<91>> \o JoinWith([i \in 1..n |-> B("{\"n\":") \o Dec(i - 1) \o B(",\"v\":\"") \o p \o B("\"}")], <<44>>) \o <<93>>

(* The body without the line end that closes it *)
BodyOk(r, body, sent) ==
  CASE r.hk \in {0, 3, 13, 14, 15} -> body = r.pl
    [] r.hk \in {1, 2, 4, 5, 6, 8, 10, 16} -> body = <<>>
    [] r.hk = 7 -> IsErrorJson(body, B("E7"), r.pl)
    [] r.hk = 9 -> IsErrorJson(body, B("E9"), r.pl)
    [] r.hk = 11 -> IsErrorJson(body, B("UNKNOWN"), r.pl)
    [] r.hk = 12 -> body = ListBody(r.st, r.pl)
    [] r.hk = 17 -> body = sent
    [] OTHER -> TRUE

WantsJson(r) == r.hk \in {0, 3, 7, 9, 11, 12, 13, 15, 17}
(* These say how long their body is *)
WantsLength(r) == r.hk \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17}
=============================================================================
