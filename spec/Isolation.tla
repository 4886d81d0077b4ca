------------------------------ MODULE Isolation ------------------------------
(* Several clients at once, each with its own connection and its own reader in the server; every order in which they connect,
   send what they send in two parts, and have their handlers finish.  What a reader has understood depends on what came on its
   own connection only.  With Shared = TRUE the readers have one buffer for all connections: then it does not (the model shows
   why the mechanism is needed).  Emits every order for every choice of requests.                                              *)
EXTENDS HttpReq, Json, TLC
CONSTANTS N, Steps, Shared

mk(c) == <<64 + c>>
Big(c) == [i \in 1..40 |-> 64 + c]
File(c) == B("--b") \o CRLF \o B("Content-Disposition: form-data; name=\"n\"; filename=\"f") \o mk(c) \o <<QUOTE>> \o CRLF \o CRLF \o Big(c) \o CRLF \o B("--b--")
Hdrs(c) == B("X-Session: s") \o mk(c) \o CRLF \o B("X-Token: ") \o Big(c) \o CRLF
(* What client c sends, by kind; the first part and the rest *)
Cut2(s, k) == <<Upto(s, k), From(s, k + 1)>>
Kinds == 1..12
Msg(c, k) ==
  CASE k = 1 -> Cut2(B("GET /api/e?q=") \o Big(c) \o B(" HTTP/1.1") \o CRLF \o Hdrs(c) \o CRLF, 20)
    [] k = 2 -> Cut2(B("GET /api/e?q=") \o mk(c) \o B(" HTTP/1.1") \o CRLF \o Hdrs(c) \o CRLF, 47)
    [] k = 3 -> Cut2(B("POST /api/e HTTP/1.1") \o CRLF \o Hdrs(c) \o B("Content-Length: 40") \o CRLF \o CRLF \o Big(c), 120)
    [] k = 4 -> Cut2(B("POST /api/p/") \o Big(c) \o B(" HTTP/1.1") \o CRLF \o B("Content-Length: 41") \o CRLF \o CRLF \o <<61>> \o Big(c), 95)
    [] k = 5 -> Cut2(B("POST /api/e HTTP/1.1") \o CRLF \o B("Content-Type: multipart/form-data; boundary=b") \o CRLF \o B("Content-Length: ") \o Dec(Len(File(c))) \o CRLF \o CRLF \o File(c), 190)
    [] k = 6 -> Cut2(B("GET /f") \o mk(c) \o B(".txt HTTP/1.1") \o CRLF \o Hdrs(c) \o CRLF, 15)
    [] k = 7 -> Cut2(B("GET /api/none") \o mk(c) \o B(" HTTP/1.1") \o CRLF \o B("User-Agent: ") \o Big(c) \o CRLF \o CRLF, 40)
    [] k = 8 -> Cut2(B("POST /api/f HTTP/1.1") \o CRLF \o B("Content-Length: 3") \o CRLF \o CRLF \o mk(c) \o B("ok"), 42)
    [] k = 9 -> Cut2(B("POST /api/f HTTP/1.1") \o CRLF \o B("Content-Length: 3") \o CRLF \o CRLF \o mk(c) \o B("no"), 30)
    [] k = 10 -> Cut2(B("GET /none") \o mk(c) \o B(" HTTP/1.1") \o CRLF \o B("Cookie: WSSESSION=c") \o mk(c) \o CRLF \o CRLF, 45)
    [] k = 11 -> Cut2(B("DELETE /api/p/") \o mk(c) \o B("?x HTTP/1.1") \o CRLF \o B("Cookie: WSSESSION=c") \o mk(c) \o CRLF \o B("Authorization:") \o CRLF \o CRLF, 60)
    [] k = 12 -> Cut2(B("GET /api/l") \o mk(c) \o B(" HTTP/1.1") \o CRLF \o CRLF, 24)
Whole(c, k) == Msg(c, k)[1] \o Msg(c, k)[2]

VARIABLES kind, at, got, own, order
vars == <<kind, at, got, own, order>>
C == 1..N
Sorted(f) == \A c \in C : c < N => f[c] <= f[c + 1]
Init == kind \in {f \in [C -> Kinds] : Sorted(f)} /\ at = [c \in C |-> 0] /\ got = [c \in C |-> <<>>] /\ own = [c \in C |-> <<>>] /\ order = <<>>

(* Steps 4: connect, first part, rest, end of the handler; 2: connect and first part, rest and end *)
Sends(c) == LET m == Msg(c, kind[c]) IN
            IF Steps = 4 THEN (CASE at[c] = 1 -> m[1] [] at[c] = 2 -> m[2] [] OTHER -> <<>>) ELSE m[at[c] + 1]
Step(c) == /\ at[c] < Steps
           /\ at' = [at EXCEPT ![c] = @ + 1]
           /\ order' = Append(order, c)
           /\ own' = [own EXCEPT ![c] = @ \o Sends(c)]
           /\ got' = IF Shared THEN [d \in C |-> IF at[d] > 0 \/ d = c THEN got[d] \o Sends(c) ELSE got[d]]
                     ELSE [got EXCEPT ![c] = @ \o Sends(c)]
           /\ UNCHANGED kind
Next == \E c \in C : Step(c)
Spec == Init /\ [][Next]_vars

Finished(c) == at[c] = Steps
Understood == \A c \in C : Parse(got[c]) = Parse(own[c])
AtTheEnd == \A c \in C : Finished(c) => Parse(got[c]).cls = "ok" /\ Parse(got[c]) = Parse(Whole(c, kind[c]))
NotBefore == \A c \in C : own[c] # Whole(c, kind[c]) => Parse(got[c]).cls = "incomplete"
Apart == \A c, d \in C : c # d /\ Finished(c) /\ Finished(d) /\ kind[c] = kind[d] => Parse(got[c]) # Parse(got[d])
Emit == IF \E c \in C : at[c] < Steps THEN TRUE
        ELSE PrintT("@@" \o ToJson([order |-> order, steps |-> Steps, kinds |-> kind, msgs |-> [c \in C |-> Msg(c, kind[c])]]))
=============================================================================
