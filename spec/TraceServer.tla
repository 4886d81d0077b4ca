----------------------------- MODULE TraceServer -----------------------------
(* Checks what the real server did in recorded schedules against Server.

   The file has scenarios (k = "scn": the connections, the limits, the allow and deny files, the workers, the capacity of
   the queue) and runs of them (k = "run": scn, ev).  Every run is one initial state.  The recorded events are
     conn c         a client connected                       acc c (fd)    the acceptor accepted it
     accfail        accept failed                            touch t c     thread t began to use the connection
     henter t c     a handler was entered                    hexit t c     it returned, its answer is sent
     close t c st   thread t closed the connection; st is the status the client got, 0 for none
     anom t c op    a descriptor was used that is not the thread's own
     still          nothing can run until a handler that is held is released
     phase          nothing can run until new clients come   end           nothing can run any more
   and they drive the actions of Server.  What the recording does not show (when exactly a worker took a connection, when
   it was counted, when it stopped counting) is left open: a run is right when some choice explains all of it.

   Soft = FALSE: only right steps; the runs that can be explained are printed.
   Soft = TRUE: every step is possible, and collects what is wrong about it; what is wrong in a run is what the least
   bad explanations have to admit.                                                                                  *)
EXTENDS Server, TLC, Json, IOUtils
CONSTANT Soft

Req == INSTANCE HttpReq
Lim == INSTANCE Limits
Ipf == INSTANCE IpFilter

T == ndJsonDeserialize(IOEnv.TRACE)

When(c, p, what) == IF c THEN {<<p, what>>} ELSE {}
Both(c, p, q, what) == IF c THEN {<<p, what>>, <<q, what>>} ELSE {}

(* ---- configuration of a scenario ---- *)
Set(s) == {s[i] : i \in 1..Len(s)}
(* of a request that is not complete: what it may count as, if it counts *)
SecondWord(s) == LET ws == Req!Pieces(Req!Pieces(s, 10)[1], 32) IN IF Len(ws) < 2 THEN <<>> ELSE Req!Trim(ws[2])
CfgOf(s) ==
  LET n == Len(s.conns)
      rules == Lim!ParseLimits(s.limits)
      pr == [c \in 1..n |-> IF s.conns[c].fake = 1 THEN [cls |-> "fake"] ELSE Req!Parse(s.conns[c].req)]
  IN [conns |-> 1..n, workers |-> Set(s.workers), fds |-> {}, cap |-> s.cap, rules |-> rules,
      ip |-> [c \in 1..n |-> s.conns[c].ip],
      hits |-> [c \in 1..n |-> IF pr[c].cls = "fake" THEN {}
                               ELSE LET u == IF pr[c].cls = "ok" THEN pr[c].url ELSE SecondWord(s.conns[c].req)
                                    IN {r \in 1..Len(rules) : Lim!Applies(rules[r], u)}],
      kind |-> [c \in 1..n |-> IF ~Ipf!Allowed(s.allow, s.deny, s.conns[c].ip) THEN "denied"
                               ELSE IF pr[c].cls \in {"ok", "fake"} THEN "req" ELSE "gone"],
      silent |-> {c \in 1..n : pr[c].cls = "incomplete" /\ s.conns[c].mode = "n"},
      abort |-> {c \in 1..n : s.conns[c].mode = "a"}]
Cfgs == [i \in 1..Len(T) |-> IF T[i].k = "scn" THEN CfgOf(T[i]) ELSE <<>>]
Runs == {i \in 1..Len(T) : T[i].k = "run"}

(* ---- what a run shows later ---- *)
FirstOf(ev, P(_)) == LET S == {i \in 1..Len(ev) : P(ev[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LookAt(c0, ev, c) ==
  LET t == FirstOf(ev, LAMBDA e : e.e = "touch" /\ e.c = c)
      h == FirstOf(ev, LAMBDA e : e.e = "henter" /\ e.c = c)
      x == FirstOf(ev, LAMBDA e : e.e = "close" /\ e.c = c)
      st == IF x = 0 THEN 0 ELSE ev[x].st
  IN [by |-> IF t = 0 THEN 0 ELSE ev[t].t,
      enters |-> h # 0,
      lost |-> t = 0 /\ x = 0,
      turned |-> t = 0 /\ x # 0 /\ ev[x].t \notin c0.workers,
      out |-> IF h # 0 THEN "admit"
              ELSE IF c0.kind[c] = "gone" \/ c \in c0.abort \/ x = 0 THEN "any"
              ELSE IF x # 0 /\ st = 429 THEN "refuse"
              ELSE "admit"]

VARIABLES rn, l, bad, look, failed
tvars == <<svars, rn, l, bad, look, failed>>

Init == \E i \in Runs :
          LET c0 == Cfgs[T[i].scn]
          IN /\ InitWith(c0) /\ rn = i /\ l = 1 /\ bad = {} /\ failed = FALSE
             /\ look = [c \in c0.conns |-> LookAt(c0, T[i].ev, c)]

Is(V) == /\ Soft \/ V = {}
         /\ bad' = bad \cup V
Stay == l' = l /\ UNCHANGED <<rn, look, failed>>
Go == l' = l + 1 /\ UNCHANGED <<rn, look, failed>>
E == T[rn].ev[l]
Idle(w) == wk[w] = 0 \/ ph[wk[w]] = "done"

(* ---- steps the recording does not show: those that must come first ... ---- *)
(* who is counted by no rule is admitted and released at once *)
PlainAdmit == {w \in cf.workers : wk[w] # 0 /\ ph[wk[w]] = "taken" /\ cf.hits[wk[w]] = {} /\ look[wk[w]].out = "admit"}
PlainRelease == {w \in cf.workers : wk[w] # 0 /\ wk[w] \in live /\ cf.hits[wk[w]] = {} /\ ph[wk[w]] = "done"}
One(S) == CHOOSE w \in S : TRUE

(* what has to happen before the event can *)
NeedEnqueue == acc # 0 /\ ~look[acc].turned /\ (E.e \in {"acc", "accfail", "still", "phase", "end"} \/ (E.e = "touch" /\ E.c = acc))
NeedRoom == NeedEnqueue /\ ~Room
Ahead == E.e = "touch" /\ \E i \in 1..Len(queue) : queue[i] = E.c /\ i > 1
(* the next in the queue can have been taken by the one who is going to serve it *)
TakenByOther == LET w == look[Head(queue)].by IN w \in cf.workers /\ Idle(w) /\ ~(E.e = "touch" /\ E.t = w)
NeedTake == (NeedRoom \/ (Ahead /\ ~NeedEnqueue)) /\ queue # <<>> /\ TakenByOther
NeedFinish == {w \in cf.workers : wk[w] # 0 /\ ph[wk[w]] = "done" /\ (\/ (E.e = "touch" /\ E.t = w)
                                                                     \/ (NeedTake /\ look[Head(queue)].by = w))}
NeedServe == E.e = "close" /\ E.t \in cf.workers /\ wk[E.t] = E.c /\ ph[E.c] = "admitted"

Forced ==
  \/ PlainAdmit # {} \/ PlainRelease # {} \/ NeedFinish # {} \/ NeedTake \/ NeedEnqueue \/ NeedServe
ForcedStep ==
  /\ Stay
  /\ IF PlainAdmit # {} THEN DoAdmit(One(PlainAdmit)) /\ Is({})
     ELSE IF PlainRelease # {} THEN DoRelease(One(PlainRelease)) /\ Is({})
     ELSE IF NeedFinish # {} THEN LET w == One(NeedFinish) IN (IF wk[w] \in live THEN DoRelease(w) ELSE DoFinish(w)) /\ Is({})
     ELSE IF NeedTake THEN DoTake(look[Head(queue)].by, Head(queue)) /\ Is({})
     ELSE IF NeedServe THEN DoServe(E.t) /\ Is({})
     \* forgotten instead of turned away: it will be missed at the end
     ELSE IF look[acc].lost /\ (~Room \/ cf.kind[acc] = "denied")
          THEN Is(When(TRUE, "C02", "a connection was dropped but not closed")) /\ acc' = 0
               /\ UNCHANGED <<cf, backlog, queue, wk, ph, live, fd, closes, arrived, taken>>
     ELSE /\ DoEnqueue
          /\ Is(When(~Room, "C01", "more connections wait than the queue may hold")
                \cup When(cf.kind[acc] = "denied", "C05", "a connection from an address that is not served was queued"))

(* ... and those that may come *)
MayStep ==
  /\ Stay
  /\ \E w \in cf.workers :
     LET c == wk[w] IN c # 0 /\
       \/ /\ ph[c] = "taken" /\ look[c].out \in {"admit", "any"} /\ DoAdmit(w)
          /\ Is(When(Reached(c), "C03", "a request runs though a limit is reached"))
       \/ /\ ph[c] = "taken" /\ look[c].out \in {"refuse", "any"} /\ DoRefuse(w)
          /\ Is(When(~Reached(c), "C04", "refused as too many though no limit is reached"))
       \/ /\ ph[c] = "taken" /\ look[c].out = "any" /\ DoReject(w) /\ Is({})
       \* an answer without a handler is not seen before the close
       \/ /\ ph[c] = "admitted" /\ ~look[c].enters /\ cf.hits[c] # {} /\ DoServe(w) /\ Is({})
       \/ /\ CanRelease(w) /\ cf.hits[c] # {} /\ DoRelease(w) /\ Is({})

(* ---- recorded events ---- *)
Nothing == UNCHANGED svars
TurnedAwayWrong(c) == ~(cf.kind[c] = "denied" \/ ~Room)

EConn == DoConnect(E.c) /\ Is({})
EAcc == DoAccept(E.c, E.fd) /\ Is(When(look[E.c].turned /\ TurnedAwayWrong(E.c), "C01", "turned away though there is room"))
ETouch ==
  LET w == E.t c == E.c IN
  IF w \notin cf.workers THEN Nothing /\ Is(When(TRUE, "C01", "a thread that is not a worker uses a connection"))
  ELSE IF wk[w] = c THEN Nothing /\ Is({})
  ELSE IF c \notin Set(queue) THEN Nothing /\ Is(When(TRUE, "C01", "a connection is served that does not wait"))
  ELSE DoTake(w, c) /\ Is(When(wk[w] # 0, "C01", "a worker takes a connection while it has one")
                          \cup When(Head(queue) # c, "C01", "connections are not taken in the order of their arrival"))
EEnter ==
  LET w == E.t c == E.c IN
  IF w \notin cf.workers \/ wk[w] # c THEN Nothing /\ Is(When(TRUE, "C01", "a handler runs in a thread that has not this connection"))
  ELSE IF ph[c] = "admitted" THEN DoEnter(w) /\ Is({})
  ELSE IF ph[c] = "taken" THEN FALSE
  ELSE Nothing /\ Is(When(TRUE, "C01", "a second handler runs for a connection"))
EExit ==
  LET w == E.t c == E.c IN
  IF w \notin cf.workers \/ wk[w] # c \/ ph[c] # "running" THEN Nothing /\ Is(When(TRUE, "C01", "a handler ends that did not run"))
  ELSE DoServe(w) /\ Is({})
EClose ==
  LET w == E.t c == E.c IN
  IF w \notin cf.workers
  THEN IF acc = c /\ look[c].turned THEN DoTurnAway /\ Is({})
       ELSE Nothing /\ Is(When(TRUE, "C02", "a connection was closed that belongs to another thread"))
  ELSE IF wk[w] # c \/ E.own = 2 THEN Nothing /\ Is(When(TRUE, "C02", "a connection was closed that belongs to another thread"))
  ELSE IF ph[c] = "taken" THEN FALSE
  ELSE DoClose(w) /\ Is(When(~CanClose(w), "C02", "a connection was closed while its handler runs"))
EAnom == Nothing /\ Is(IF E.op = "serve" THEN When(TRUE, "C01", "a worker was given a connection that is not its own")
                       ELSE IF E.op = "close" THEN When(TRUE, "C02", "a descriptor was closed again")
                       ELSE When(E.t \in cf.workers /\ Idle(E.t), "C01", "a worker serves something that was not given to it")
                            \cup Both(TRUE, "C02", "C15", "a descriptor was used that is closed or belongs to another thread"))

StillOk == (IF failed THEN Both(backlog # <<>>, "C01", "C23", "no connection is accepted any more") ELSE When(backlog # <<>>, "C01", "no connection is accepted any more"))
           \cup When(queue # <<>> /\ \E w \in cf.workers : Idle(w), "C01", "a connection waits while a worker is idle")
EndOk == {c \in cf.conns : ph[c] \notin {"new", "queued", "done"} /\ c \notin cf.silent}
PhaseOk == StillOk \cup When(EndOk # {}, "C02", "a connection was not closed")
Open == Cardinality({c \in cf.conns : ph[c] \notin {"new", "backlog", "done"} /\ T[T[rn].scn].conns[c].fake = 0})
EEnd == Nothing /\ Is(PhaseOk \cup Both(E.why # "quiescent", "C16", "ANY", "the server does not come to rest")
                      \cup When(E.why = "quiescent" /\ E.fds # 1 + Open, "C02", "descriptors stay open")
                      \cup Both(E.lost > 0, "C01", "C16", "a worker ended"))
Event ==
  CASE E.e = "conn" -> EConn
    [] E.e = "acc" -> EAcc
    [] E.e = "touch" -> ETouch
    [] E.e = "henter" -> EEnter
    [] E.e = "hexit" -> EExit
    [] E.e = "close" -> EClose
    [] E.e = "anom" -> EAnom
    [] E.e = "accfail" -> Nothing /\ Is({})
    [] E.e = "still" -> Nothing /\ Is(StillOk)
    [] E.e = "phase" -> Nothing /\ Is(PhaseOk)
    [] E.e = "end" -> EEnd
    [] E.e = "crash" -> Nothing /\ Is(Both(TRUE, "C16", "ANY", "the server process ended"))
    [] OTHER -> Nothing /\ Is(When(TRUE, "spec", "unknown event"))
EventStep == /\ Event /\ l' = l + 1 /\ UNCHANGED <<rn, look>> /\ failed' = (failed \/ E.e = "accfail")

Finished == l > Len(T[rn].ev)
Report == /\ Finished /\ rn # 0
          /\ PrintT("@@" \o ToJson([id |-> T[rn].id, bad |-> bad]))
          /\ rn' = 0 /\ cf' = <<>> /\ backlog' = <<>> /\ acc' = 0 /\ queue' = <<>> /\ wk' = <<>> /\ ph' = <<>> /\ live' = {} /\ fd' = <<>>
          /\ closes' = <<>> /\ arrived' = <<>> /\ taken' = <<>> /\ l' = 0 /\ bad' = {} /\ look' = <<>> /\ failed' = FALSE
Next == IF rn = 0 THEN FALSE
        ELSE IF Finished THEN Report
        ELSE IF Forced THEN ForcedStep
        ELSE MayStep \/ EventStep
Spec == Init /\ [][Next]_tvars
=============================================================================
