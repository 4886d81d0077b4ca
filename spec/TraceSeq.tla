------------------------------ MODULE TraceSeq ------------------------------
(* Checks recorded exchanges, one after the other, against Exchange.  The recorded file is a sequence of records:
     k = "cfg"   the configuration from here on
     k = "x"     an exchange
     k = "dir"   the content of the upload folder
     k = "solo"  an exchange of a connection (number c) that had the server for itself
     k = "with"  the exchange of the same connection among others, under one schedule of the server
     k = "group" the exchanges of one schedule, and the log lines they left
     k = "plain" an exchange (number c) without TLS
     k = "tls"   the same exchange with TLS
     k = "hs"    a connection to the server with TLS that does not complete the handshake
     k = "rest"  what the server holds when there are no connections: descriptors, TLS connections
     k = "endure" the same thing n times, several times over: what the server holds at least more of after each n of
              them, in descriptors, TLS connections, bytes
     k = "slow"  a connection whose bytes or answer take their time: how it stands at an age
     k = "limits" a limits file and the rules that were read from it
   Every disagreement is printed; the check then goes on with the next record.                                    *)
EXTENDS Exchange, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cf, stored, alone

NoCfg == [k |-> "none"]
Init == l = 1 /\ cf = NoCfg /\ stored = {} /\ alone = {}

Report(e, mm) == IF mm = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> e.id, mm |-> mm]))
Ups(x) == {[n |-> x.up[i].n, x |-> x.up[i].x] : i \in 1..Len(x.up)}

(* Log lines of exchanges that were in progress together: each answered one has exactly its line *)
GroupLog(e) ==
  LET n == Len(e.xs)
      pr == [i \in 1..n |-> Parse(e.xs[i].req)]
      rp == [i \in 1..n |-> IF e.xs[i].resp = <<>> THEN Malformed ELSE ParseResp(e.xs[i].resp)]
      sure == {i \in 1..n : pr[i].cls \in {"ok", "badmethod", "longurl"} /\ rp[i].ok /\ ~GoneEarly(e.xs[i])}
      maybe == {i \in 1..n : GoneEarly(e.xs[i])}
      other == {i \in 1..n : i \notin sure /\ i \notin maybe /\ e.xs[i].resp # <<>>}
      lines == {k \in 1..Len(e.log) : TRUE}
      of(i) == {k \in lines : LogLineOk(e.log[k], e.xs[i], pr[i], rp[i].status, rp[i].status \in {429, 400})}
  IN When(\E k \in lines : ~LooksLikeLog(e.log[k]), "C14", "a broken line in the access log")
     \cup When(\E i \in sure : of(i) = {}, "C14", "an answered request has no accurate line in the access log")
     \cup When(Len(e.log) > Cardinality(sure) + Cardinality(maybe) + Cardinality(other)
               \/ Len(e.log) < Cardinality(sure) + Cardinality(other), "C14", "not one line per answered request")
     \cup When(\E i, j \in sure : i # j /\ Cardinality(of(i)) < 2 /\ of(i) = of(j), "C14", "two answered requests share a line of the access log")

(* C15: among others exactly as alone.  The schedules in which the connection is alone give what there is to see and what
   is wrong with it already; a refusal because of limits that others use up is the business of C03 and C04.
   C20: with TLS exactly as without.                                                                                  *)
(* Uploads have other names every time; Judge compares their content *)
Uploads(evs) == \E i \in 1..Len(evs) : Contains(evs[i].form, B("tmpfile="))
Least(S) == CHOOSE m \in S : \A n \in S : m <= n
Differs(x, mm, tag, how) ==
  LET same == {a \in alone : a.c = x.c}
      r == Parse(x.req)
      p == IF x.resp = <<>> THEN Malformed ELSE ParseResp(x.resp)
      limited == cf.limits # <<>> /\ p.ok /\ p.status = 429 /\ x.k = "with"
      exact == same # {} /\ ~GoneEarly(x) /\ ~limited /\ ~Uploads(x.evs)
      new == IF same = {} THEN {} ELSE {w \in {m[2] : m \in mm} : \A a \in same : w \notin {m[2] : m \in a.mm}}
  IN {<<tag, w>> : w \in new}
     \cup When(exact /\ \A a \in same : a.evs # ToJson(x.evs), tag, "handler or filter sees something else than " \o how)
     \cup When(exact /\ \A a \in same : a.resp # x.resp, tag, "the client receives something else than " \o how)
Seen(x, mm) == [c |-> x.c, evs |-> ToJson(x.evs), resp |-> x.resp, mm |-> mm]

(* C27. e.req has arrived of the request e.whole, e.age milliseconds after the connection was accepted; e.held = 1: its handler
   has not come to its end. The clock of the limits has seconds: an age near the maximum is not judged.              *)
Slow(e) ==
  LET r == Parse(e.whole)
      rs == ParseLimits(cf.limits)
      secs == {rs[i].secs : i \in {j \in 1..Len(rs) : r.cls = "ok" /\ Applies(rs[j], r.url) /\ rs[j].secs > 0}}
      within == secs = {} \/ e.age <= 1000 * Least(secs) - 1500
      beyond == secs # {} /\ e.age >= 1000 * Least(secs) + 2000
      waiting == e.req # e.whole \/ e.held = 1
  IN IF e.alive = 0 THEN WhenAll(TRUE, {"C16", "ANY"}, "the server process ended")
     ELSE IF within THEN
       \* an answer may be clear before the last byte
       IF waiting /\ e.closed = 0 THEN {}
       ELSE {<<"C27", IF waiting THEN "ended within its seconds without its answer" ELSE m[2]>> : m \in Judge(cf, [e EXCEPT !.req = e.whole], {})}
     ELSE When(beyond /\ e.closed = 0, "C27", "served beyond the seconds of its rule")

LimitsRead(e) ==
  LET want == ParseLimits(e.file)
  IN IF e.alive = 0 THEN WhenAll(TRUE, {"C16", "ANY"}, "the server process ended")
     ELSE IF ~Settled(e.file) THEN {}
     ELSE When(Len(want) # Len(e.rules) \/ \E i \in 1..Len(want) :
                 \/ want[i].path # e.rules[i].path \/ want[i].max # e.rules[i].max
                 \/ want[i].per # e.rules[i].per \/ want[i].secs # e.rules[i].secs, "C19", "rules read differ from the file")

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.k = "cfg" -> cf' = e /\ stored' = {} /\ alone' = {}
       [] e.k = "x" -> /\ stored' = stored \cup Ups(e)
                       /\ Report(e, Judge(cf, e, stored'))
                       /\ UNCHANGED <<cf, alone>>
       [] e.k = "solo" -> /\ UNCHANGED <<cf, stored>>
                          /\ LET mm == Judge(cf, e, Ups(e))
                             IN Report(e, mm) /\ alone' = alone \cup {Seen(e, mm)}
       [] e.k = "with" -> /\ UNCHANGED <<cf, stored, alone>>
                          /\ LET mm == Judge(cf, e, Ups(e)) IN Report(e, mm \cup Differs(e, mm, "C15", "when the request is alone"))
       [] e.k = "plain" -> /\ UNCHANGED cf /\ stored' = stored \cup Ups(e)
                           /\ LET mm == Judge(cf, e, stored')
                              IN Report(e, mm) /\ alone' = {Seen(e, mm)}
       [] e.k = "tls" -> /\ UNCHANGED <<cf, alone>> /\ stored' = stored \cup Ups(e)
                         /\ LET mm == Judge(cf, e, stored') IN Report(e, mm \cup Differs(e, mm, "C20", "without TLS"))
       [] e.k = "hs" -> UNCHANGED <<cf, stored, alone>> /\ Report(e, HandshakeOk(cf, e))
       [] e.k = "rest" -> /\ UNCHANGED <<cf, stored, alone>>
                          /\ Report(e, When(e.ssl # 0, "C20", "TLS connections are not released")
                                       \cup WhenAll(e.fds > 0, {"C02", "C20"}, "descriptors of past connections are open")
                                       \cup WhenAll(e.ok = 0, {"C16"}, "worker not available again"))
       [] e.k = "endure" -> /\ UNCHANGED <<cf, stored, alone>>
                            /\ Report(e, WhenAll(2 * e.fds > e.n, {"C02", "C16"}, "descriptors are left open again and again")
                                         \cup When(2 * e.ssl > e.n, "C20", "TLS connections are not released")
                                         \cup WhenAll(e.mem >= 2 * e.n, {"C16"}, "memory is not given back, again and again")
                                         \cup WhenAll(e.ok = 0, {"C16"}, "worker not available again"))
       [] e.k = "slow" -> UNCHANGED <<cf, stored, alone>> /\ Report(e, Slow(e))
       [] e.k = "dir" -> /\ UNCHANGED <<cf, stored, alone>>
                         /\ Report(e, When(\E u \in stored : ~\E i \in 1..Len(e.files) : e.files[i].n = u.n /\ e.files[i].x = u.x,
                                           "C12", "a stored upload was changed or lost by later requests"))
       [] e.k = "group" -> /\ UNCHANGED <<cf, stored>>
                           /\ LET mm == IF e.crash = 1 THEN WhenAll(TRUE, {"C16"}, "the server process ended") ELSE GroupLog(e)
                                  was == UNION {a.mm : a \in {b \in alone : b.c = 0}}
                              IN /\ Report(e, mm \cup (IF e.alone = 1 THEN {} ELSE {<<"C15", m[2]>> : m \in mm \ was}))
                                 /\ alone' = IF e.alone = 1 THEN alone \cup {[c |-> 0, evs |-> "", resp |-> <<>>, mm |-> mm]} ELSE alone
       [] e.k = "limits" -> UNCHANGED <<cf, stored, alone>> /\ Report(e, LimitsRead(e))
Next == Step
Spec == Init /\ [][Next]_<<l, cf, stored, alone>>
View == l
Finished == l = Len(Trace) + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
