------------------------------- MODULE Server -------------------------------
(* The server as its users see it: one acceptor, a queue of waiting connections, a pool of workers, the limits.

   cf describes the run: conns, workers, fds (sets), cap (capacity of the queue), rules (sequence of [max, per]),
   ip[c], hits[c] (the rules whose path the URL of c begins with), kind[c]:
     "req"     a request line the server understands      "bad"  one it rejects before looking at the limits
     "denied"  comes from an address that is not served   "gone" its client leaves before the request line is complete

   Every action A is split into its guard (CanA) and its effect (DoA): the specification is their conjunction, and
   TraceServer takes the effects from what the real server did and asks the guards whether that was right.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cf,       \* the configuration of this run
          backlog,  \* connections the kernel has and the server has not accepted, in order
          acc,      \* the connection the acceptor deals with, or 0
          queue,    \* connections waiting for a worker, in order
          wk,       \* worker -> its connection, or 0
          ph,       \* connection -> how far it is
          live,     \* connections that count for the limits
          fd,       \* connection -> its descriptor while it is open, or 0
          closes,   \* connection -> how often it was closed
          arrived, taken  \* history: connections queued, and taken by workers, in order

svars == <<cf, backlog, acc, queue, wk, ph, live, fd, closes, arrived, taken>>

Phases == {"new", "backlog", "accepted", "queued", "taken", "admitted", "running", "served", "refused", "rejected", "done"}

InitWith(c0) ==
  /\ cf = c0
  /\ backlog = <<>> /\ acc = 0 /\ queue = <<>>
  /\ wk = [w \in c0.workers |-> 0]
  /\ ph = [c \in c0.conns |-> "new"]
  /\ live = {}
  /\ fd = [c \in c0.conns |-> 0]
  /\ closes = [c \in c0.conns |-> 0]
  /\ arrived = <<>> /\ taken = <<>>

(* ---- clients and acceptor ---- *)
CanConnect(c) == ph[c] = "new"
DoConnect(c) == /\ backlog' = Append(backlog, c) /\ ph' = [ph EXCEPT ![c] = "backlog"]
                /\ UNCHANGED <<cf, acc, queue, wk, live, fd, closes, arrived, taken>>
Connect(c) == CanConnect(c) /\ DoConnect(c)

FreeFds == cf.fds \ {fd[c] : c \in cf.conns}
CanAccept(c, d) == acc = 0 /\ backlog # <<>> /\ Head(backlog) = c /\ d \in FreeFds
DoAccept(c, d) == /\ acc' = c /\ backlog' = SelectSeq(backlog, LAMBDA x : x # c)
                  /\ ph' = [ph EXCEPT ![c] = "accepted"] /\ fd' = [fd EXCEPT ![c] = d]
                  /\ UNCHANGED <<cf, queue, wk, live, closes, arrived, taken>>
Accept(c, d) == CanAccept(c, d) /\ DoAccept(c, d)

(* a failed accept changes nothing *)
CanAcceptFail == acc = 0
AcceptFail == CanAcceptFail /\ UNCHANGED svars

Room == Len(queue) < cf.cap
CanEnqueue == acc # 0 /\ Room /\ cf.kind[acc] # "denied"
DoEnqueue == /\ queue' = Append(queue, acc) /\ arrived' = Append(arrived, acc)
             /\ ph' = [ph EXCEPT ![acc] = "queued"] /\ acc' = 0
             /\ UNCHANGED <<cf, backlog, wk, live, fd, closes, taken>>
Enqueue == CanEnqueue /\ DoEnqueue

(* the acceptor closes a connection itself when its address is not served, or nothing more may wait *)
CanTurnAway == acc # 0 /\ (cf.kind[acc] = "denied" \/ ~Room)
DoTurnAway == /\ ph' = [ph EXCEPT ![acc] = "done"] /\ fd' = [fd EXCEPT ![acc] = 0]
              /\ closes' = [closes EXCEPT ![acc] = @ + 1] /\ acc' = 0
              /\ UNCHANGED <<cf, backlog, queue, wk, live, arrived, taken>>
TurnAway == CanTurnAway /\ DoTurnAway

(* ---- workers ---- *)
CanTake(w, c) == wk[w] = 0 /\ queue # <<>> /\ Head(queue) = c
DoTake(w, c) == /\ wk' = [wk EXCEPT ![w] = c] /\ queue' = SelectSeq(queue, LAMBDA x : x # c)
                /\ taken' = Append(taken, c) /\ ph' = [ph EXCEPT ![c] = "taken"]
                /\ UNCHANGED <<cf, backlog, acc, live, fd, closes, arrived>>
Take(w, c) == CanTake(w, c) /\ DoTake(w, c)

Using(r, others) == {c \in others : r \in cf.hits[c]}
Reached(c) == \E r \in cf.hits[c] :
                 \/ Cardinality(Using(r, live \ {c})) >= cf.rules[r].max
                 \/ Cardinality({o \in Using(r, live \ {c}) : cf.ip[o] = cf.ip[c]}) >= cf.rules[r].per

CanReject(w) == wk[w] # 0 /\ ph[wk[w]] = "taken" /\ cf.kind[wk[w]] \in {"bad", "gone"}
DoReject(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "rejected"]
               /\ UNCHANGED <<cf, backlog, acc, queue, wk, live, fd, closes, arrived, taken>>
Reject(w) == CanReject(w) /\ DoReject(w)

(* counting the others and being counted is one step *)
CanAdmit(w) == wk[w] # 0 /\ ph[wk[w]] = "taken" /\ cf.kind[wk[w]] \in {"req", "gone"} /\ ~Reached(wk[w])
DoAdmit(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "admitted"] /\ live' = live \cup {wk[w]}
              /\ UNCHANGED <<cf, backlog, acc, queue, wk, fd, closes, arrived, taken>>
Admit(w) == CanAdmit(w) /\ DoAdmit(w)

CanRefuse(w) == wk[w] # 0 /\ ph[wk[w]] = "taken" /\ cf.kind[wk[w]] \in {"req", "gone"} /\ Reached(wk[w])
DoRefuse(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "refused"]
               /\ UNCHANGED <<cf, backlog, acc, queue, wk, live, fd, closes, arrived, taken>>
Refuse(w) == CanRefuse(w) /\ DoRefuse(w)

(* the program's handler runs; requests without one (static files, incomplete ones) are served without it *)
CanEnter(w) == wk[w] # 0 /\ ph[wk[w]] = "admitted"
DoEnter(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "running"]
              /\ UNCHANGED <<cf, backlog, acc, queue, wk, live, fd, closes, arrived, taken>>
Enter(w) == CanEnter(w) /\ DoEnter(w)

CanServe(w) == wk[w] # 0 /\ ph[wk[w]] \in {"admitted", "running"}
DoServe(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "served"]
              /\ UNCHANGED <<cf, backlog, acc, queue, wk, live, fd, closes, arrived, taken>>
Serve(w) == CanServe(w) /\ DoServe(w)

(* stops counting: at the latest before the worker takes another connection *)
CanRelease(w) == wk[w] # 0 /\ wk[w] \in live /\ ph[wk[w]] \in {"served", "done"}
DoRelease(w) == /\ live' = live \ {wk[w]}
                /\ UNCHANGED <<cf, backlog, acc, queue, wk, ph, fd, closes, arrived, taken>>
Release(w) == CanRelease(w) /\ DoRelease(w)

CanClose(w) == wk[w] # 0 /\ ph[wk[w]] \in {"served", "refused", "rejected"}
DoClose(w) == /\ ph' = [ph EXCEPT ![wk[w]] = "done"] /\ fd' = [fd EXCEPT ![wk[w]] = 0]
              /\ closes' = [closes EXCEPT ![wk[w]] = @ + 1]
              /\ UNCHANGED <<cf, backlog, acc, queue, wk, live, arrived, taken>>
Close(w) == CanClose(w) /\ DoClose(w)

CanFinish(w) == wk[w] # 0 /\ ph[wk[w]] = "done" /\ wk[w] \notin live
DoFinish(w) == /\ wk' = [wk EXCEPT ![w] = 0]
               /\ UNCHANGED <<cf, backlog, acc, queue, ph, live, fd, closes, arrived, taken>>
Finish(w) == CanFinish(w) /\ DoFinish(w)

Acceptor == \/ \E c \in cf.conns : \E d \in FreeFds : Accept(c, d)
            \/ Enqueue \/ TurnAway
Worker(w) == \/ \E c \in cf.conns : Take(w, c)
             \/ Reject(w) \/ Admit(w) \/ Refuse(w) \/ Enter(w) \/ Serve(w) \/ Release(w) \/ Close(w) \/ Finish(w)
SNext == (\E c \in cf.conns : Connect(c)) \/ AcceptFail \/ Acceptor \/ \E w \in cf.workers : Worker(w)


(* ---- what follows ---- *)
TypeOK == /\ \A c \in cf.conns : ph[c] \in Phases /\ fd[c] \in cf.fds \cup {0} /\ closes[c] \in 0..1
          /\ live \subseteq cf.conns /\ Len(queue) <= cf.cap
(* C01 *)
ServedInOrder == arrived = taken \o queue
ServedOnce == /\ \A i, j \in 1..Len(taken) : i # j => taken[i] # taken[j]
              /\ \A v, w \in cf.workers : v # w => wk[v] = 0 \/ wk[v] # wk[w]
(* C02 *)
OpenApart == \A c, d \in cf.conns : c # d /\ fd[c] # 0 => fd[c] # fd[d]
ClosedAtTheEnd == \A c \in cf.conns : (closes[c] = 1) <=> (ph[c] = "done")
ClosedThenIdle == (\A w \in cf.workers : wk[w] = 0) /\ acc = 0 =>
                  \A c \in cf.conns : fd[c] # 0 <=> ph[c] = "queued"
(* C03 *)
LimitsHeld == \A r \in 1..Len(cf.rules) :
                /\ Cardinality(Using(r, live)) <= cf.rules[r].max
                /\ \A c \in live : Cardinality({o \in Using(r, live) : cf.ip[o] = cf.ip[c]}) <= cf.rules[r].per
RunningCounts == \A c \in cf.conns : ph[c] \in {"admitted", "running"} => c \in live
(* C04 *)
OnlyInProgressCount == \A c \in live : \E w \in cf.workers : wk[w] = c
CapacityRestored == (\A w \in cf.workers : wk[w] = 0) => live = {}
=============================================================================
