----------------------------- MODULE ServerImpl -----------------------------
(* The mechanisms of ws.c, one shared access at a time: the ring buffer with its mutex and condition variable
   (ws_launch, ws_queue_get), the table of live connections with its mutex (connection_add, connection_del), and
   descriptor numbers that are reused as soon as they are closed.  With Bug = "none" it refines Server; the other
   values are mistakes these mechanisms invite, and TLC shows for each what it breaks.

     "if"            the worker does not look at the queue again after it was woken
     "signal_empty"  the acceptor signals only when the queue was empty
     "split"         counting and registering are two critical sections
     "late_del"      the descriptor is closed before the connection is unregistered
     "off_by_one"    a limit admits one more
     "keep_full"     a connection that finds the queue full is not closed
     "no_wrap"       the reader's position does not wrap around
     "leak"          a connection that is refused stays registered
     "fatal"         a failed accept ends the acceptor                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, W, Cap, Configs, Bug, Spurious, Fails

Conns == 1..N
Workers == 1..W
Fds == 4..(3 + N)
Slots == 1..(W + 1)

Ips == <<1, 1, 2, 1, 2>>
Cfg(kinds, hits, rules) == [conns |-> Conns, workers |-> Workers, fds |-> Fds, cap |-> Cap, rules |-> rules,
                            ip |-> [c \in Conns |-> Ips[c]], hits |-> [c \in Conns |-> hits[c]], kind |-> [c \in Conns |-> kinds[c]]]
Plain == <<"req", "req", "req", "req", "req">>
cfgs == [ a |-> Cfg(Plain, <<{1}, {1}, {1}, {1}, {1}>>, <<[max |-> 1, per |-> 1]>>),
          b |-> Cfg(Plain, <<{1}, {1, 2}, {1}, {2}, {}>>, <<[max |-> 2, per |-> 1], [max |-> 1, per |-> 1]>>),
          c |-> Cfg(<<"req", "req", "bad", "req", "denied">>, <<{1}, {1}, {1}, {}, {1}>>, <<[max |-> 2, per |-> 1]>>),
          d |-> Cfg(<<"req", "denied", "req", "bad", "req">>, <<{}, {1}, {1}, {1}, {1}>>, <<[max |-> 0, per |-> 5]>>),
          e |-> Cfg(Plain, <<{}, {}, {}, {}, {}>>, <<>>),
          f |-> Cfg(Plain, <<{}, {}, {1}, {1}, {}>>, <<[max |-> 1, per |-> 1]>>) ]

VARIABLES cf, backlog, apc, ac, afd, was,          \* clients and acceptor
          mutex, front, rear, size, el, wait,      \* ring buffer, mutex owner (0 none, -1 acceptor), workers in cond_wait
          wpc, wfd, ok,                            \* workers
          lmutex, table,                           \* slot -> [sock, c], sock = 0 when free
          fdc,                                     \* descriptor -> connection that has it open, or 0
          wc, gph, closes, arrived, taken, fails   \* history
ivars == <<cf, backlog, apc, ac, afd, was, mutex, front, rear, size, el, wait, wpc, wfd, ok, lmutex, table, fdc, wc, gph, closes, arrived, taken, fails>>

Init == /\ \E k \in Configs : cf = cfgs[k]
        /\ backlog = <<>> /\ apc = "accept" /\ ac = 0 /\ afd = 0 /\ was = 0
        /\ mutex = 0 /\ front = 0 /\ rear = Cap - 1 /\ size = 0 /\ el = [i \in 0..(Cap - 1) |-> 0] /\ wait = {}
        /\ wpc = [w \in Workers |-> "lock"] /\ wfd = [w \in Workers |-> 0] /\ ok = [w \in Workers |-> FALSE]
        /\ lmutex = 0 /\ table = [s \in Slots |-> [sock |-> 0, c |-> 0]]
        /\ fdc = [d \in Fds |-> 0]
        /\ wc = [w \in Workers |-> 0] /\ gph = [c \in Conns |-> "new"] /\ closes = [c \in Conns |-> 0]
        /\ arrived = <<>> /\ taken = <<>> /\ fails = 0

acceptorVars == <<apc, ac, afd, was>>
queueVars == <<front, rear, size, el, arrived>>
workerVars == <<wpc, wfd, ok, wc, taken>>

Connect(c) == /\ gph[c] = "new" /\ backlog' = Append(backlog, c) /\ gph' = [gph EXCEPT ![c] = "backlog"]
              /\ UNCHANGED <<cf, acceptorVars, mutex, queueVars, wait, workerVars, lmutex, table, fdc, closes, fails>>

(* ---- acceptor ---- *)
Lowest == CHOOSE d \in Fds : fdc[d] = 0 /\ \A e \in Fds : fdc[e] = 0 => d <= e
AAccept == /\ apc = "accept" /\ backlog # <<>>
           /\ ac' = Head(backlog) /\ backlog' = Tail(backlog) /\ afd' = Lowest /\ fdc' = [fdc EXCEPT ![Lowest] = Head(backlog)]
           /\ gph' = [gph EXCEPT ![Head(backlog)] = "accepted"] /\ apc' = "filter"
           /\ UNCHANGED <<cf, was, mutex, queueVars, wait, workerVars, lmutex, table, closes, fails>>
AFail == /\ apc = "accept" /\ fails < Fails /\ fails' = fails + 1 /\ apc' = IF Bug = "fatal" THEN "ended" ELSE "accept"
         /\ UNCHANGED <<cf, backlog, ac, afd, was, mutex, queueVars, wait, workerVars, lmutex, table, fdc, gph, closes>>
AFilter == /\ apc = "filter"
           /\ IF cf.kind[ac] = "denied"
              THEN /\ fdc' = [fdc EXCEPT ![afd] = 0] /\ closes' = [closes EXCEPT ![ac] = @ + 1]
                   /\ gph' = [gph EXCEPT ![ac] = "done"] /\ apc' = "accept" /\ ac' = 0
              ELSE apc' = "lock" /\ UNCHANGED <<fdc, closes, gph, ac>>
           /\ UNCHANGED <<cf, backlog, afd, was, mutex, queueVars, wait, workerVars, lmutex, table, fails>>
ALock == /\ apc = "lock" /\ mutex = 0 /\ mutex' = -1 /\ apc' = "put"
         /\ UNCHANGED <<cf, backlog, ac, afd, was, queueVars, wait, workerVars, lmutex, table, fdc, gph, closes, fails>>
APut == /\ apc = "put" /\ was' = size
        /\ IF size # Cap
           THEN LET r == IF rear + 1 = Cap THEN 0 ELSE rear + 1
                IN /\ size' = size + 1 /\ rear' = r /\ el' = [el EXCEPT ![r] = afd] /\ arrived' = Append(arrived, ac)
                   /\ gph' = [gph EXCEPT ![ac] = "queued"] /\ UNCHANGED <<fdc, closes>>
           ELSE IF Bug = "keep_full" THEN UNCHANGED <<size, rear, el, arrived, gph, fdc, closes>>
           ELSE /\ fdc' = [fdc EXCEPT ![afd] = 0] /\ closes' = [closes EXCEPT ![ac] = @ + 1]
                /\ gph' = [gph EXCEPT ![ac] = "done"] /\ UNCHANGED <<size, rear, el, arrived>>
        /\ ac' = 0 /\ apc' = "unlock"
        /\ UNCHANGED <<cf, backlog, afd, mutex, front, wait, workerVars, lmutex, table, fails>>
AUnlock == /\ apc = "unlock" /\ mutex' = 0 /\ apc' = "signal"
           /\ UNCHANGED <<cf, backlog, ac, afd, was, queueVars, wait, workerVars, lmutex, table, fdc, gph, closes, fails>>
ASignal == /\ apc = "signal" /\ apc' = "accept"
           /\ IF wait = {} \/ (Bug = "signal_empty" /\ was # 0) THEN UNCHANGED <<wait, wpc>>
              ELSE \E w \in wait : wait' = wait \ {w} /\ wpc' = [wpc EXCEPT ![w] = "relock"]
           /\ UNCHANGED <<cf, backlog, ac, afd, was, mutex, queueVars, wfd, ok, wc, taken, lmutex, table, fdc, gph, closes, fails>>

(* ---- workers: taking a connection ---- *)
Goto(w, p) == wpc' = [wpc EXCEPT ![w] = p]
WLock(w) == /\ wpc[w] \in {"lock", "relock"} /\ mutex = 0 /\ mutex' = w
            /\ Goto(w, IF wpc[w] = "relock" /\ Bug = "if" THEN "get" ELSE "check")
            /\ UNCHANGED <<cf, backlog, acceptorVars, queueVars, wait, wfd, ok, wc, taken, lmutex, table, fdc, gph, closes, fails>>
WCheck(w) == /\ wpc[w] = "check"
             /\ IF size = 0 THEN wait' = wait \cup {w} /\ mutex' = 0 /\ Goto(w, "wait") ELSE Goto(w, "get") /\ UNCHANGED <<wait, mutex>>
             /\ UNCHANGED <<cf, backlog, acceptorVars, queueVars, wfd, ok, wc, taken, lmutex, table, fdc, gph, closes, fails>>
WSpurious(w) == /\ Spurious /\ w \in wait /\ wait' = wait \ {w} /\ Goto(w, "relock")
                /\ UNCHANGED <<cf, backlog, acceptorVars, mutex, queueVars, wfd, ok, wc, taken, lmutex, table, fdc, gph, closes, fails>>
WGet(w) == /\ wpc[w] = "get" /\ front \in DOMAIN el
           /\ LET d == el[front] c == IF d \in Fds THEN fdc[d] ELSE 0
              IN /\ wfd' = [wfd EXCEPT ![w] = d] /\ wc' = [wc EXCEPT ![w] = c] /\ taken' = Append(taken, c)
                 /\ gph' = IF c = 0 THEN gph ELSE [gph EXCEPT ![c] = "taken"]
           /\ IF size # 0 THEN size' = size - 1 /\ front' = (IF front + 1 = Cap /\ Bug # "no_wrap" THEN 0 ELSE front + 1)
              ELSE UNCHANGED <<size, front>>
           /\ Goto(w, "unlock")
           /\ UNCHANGED <<cf, backlog, acceptorVars, mutex, rear, el, arrived, wait, ok, lmutex, table, fdc, closes, fails>>
WUnlock(w) == /\ wpc[w] = "unlock" /\ mutex' = 0 /\ Goto(w, "serve")
              /\ UNCHANGED <<cf, backlog, acceptorVars, queueVars, wait, wfd, ok, wc, taken, lmutex, table, fdc, gph, closes, fails>>

(* ---- workers: the limits ---- *)
others == <<cf, backlog, acceptorVars, mutex, queueVars, wait, wfd, wc, taken, fails>>
Regs(r, w) == {s \in Slots : table[s].sock # 0 /\ r \in cf.hits[table[s].c]}
Full(w) == LET more == IF Bug = "off_by_one" THEN 1 ELSE 0
           IN \E r \in cf.hits[wc[w]] :
                \/ Cardinality(Regs(r, w)) >= cf.rules[r].max + more
                \/ Cardinality({s \in Regs(r, w) : cf.ip[table[s].c] = cf.ip[wc[w]]}) >= cf.rules[r].per + more
WServe(w) == /\ wpc[w] = "serve"
             /\ IF cf.kind[wc[w]] = "bad" THEN gph' = [gph EXCEPT ![wc[w]] = "rejected"] /\ Goto(w, "end") ELSE gph' = gph /\ Goto(w, "llock")
             /\ UNCHANGED <<others, ok, lmutex, table, fdc, closes>>
WLLock(w) == /\ wpc[w] = "llock" /\ lmutex = 0 /\ lmutex' = w /\ Goto(w, "count")
             /\ UNCHANGED <<others, ok, table, fdc, gph, closes>>
WCount(w) == /\ wpc[w] = "count" /\ ok' = [ok EXCEPT ![w] = ~Full(w)]
             /\ lmutex' = (IF Bug = "split" THEN 0 ELSE lmutex)
             /\ gph' = (IF Full(w) THEN [gph EXCEPT ![wc[w]] = "refused"] ELSE gph)
             /\ Goto(w, IF Bug = "split" THEN "llock2" ELSE "register")
             /\ UNCHANGED <<others, table, fdc, closes>>
WLLock2(w) == /\ wpc[w] = "llock2" /\ lmutex = 0 /\ lmutex' = w /\ Goto(w, "register")
              /\ UNCHANGED <<others, ok, table, fdc, gph, closes>>
WRegister(w) ==
  /\ wpc[w] = "register"
  /\ IF ok[w] \/ Bug = "leak"
     THEN LET s == CHOOSE i \in Slots : table[i].sock = 0 /\ \A j \in Slots : table[j].sock = 0 => i <= j
          IN table' = [table EXCEPT ![s] = [sock |-> wfd[w], c |-> wc[w]]]
     ELSE UNCHANGED table
  /\ gph' = (IF ok[w] THEN [gph EXCEPT ![wc[w]] = "admitted"] ELSE gph)
  /\ Goto(w, "lunlock")
  /\ UNCHANGED <<others, ok, lmutex, fdc, closes>>
WLUnlock(w) == /\ wpc[w] = "lunlock" /\ lmutex' = 0 /\ Goto(w, IF ok[w] THEN "enter" ELSE "end")
               /\ UNCHANGED <<others, ok, table, fdc, gph, closes>>

(* ---- workers: handler, end ---- *)
WEnter(w) == /\ wpc[w] = "enter" /\ gph' = [gph EXCEPT ![wc[w]] = "running"] /\ Goto(w, "exit")
             /\ UNCHANGED <<others, ok, lmutex, table, fdc, closes>>
WExit(w) == /\ wpc[w] = "exit" /\ gph' = [gph EXCEPT ![wc[w]] = "served"] /\ Goto(w, "end")
            /\ UNCHANGED <<others, ok, lmutex, table, fdc, closes>>
WEnd(w) == /\ wpc[w] = "end" /\ Goto(w, IF Bug = "late_del" THEN "close" ELSE "dlock")
           /\ UNCHANGED <<others, ok, lmutex, table, fdc, gph, closes>>
WDLock(w) == /\ wpc[w] = "dlock" /\ lmutex = 0 /\ lmutex' = w /\ Goto(w, "del")
             /\ UNCHANGED <<others, ok, table, fdc, gph, closes>>
WDel(w) == /\ wpc[w] = "del"
           /\ LET mine == {s \in Slots : table[s].sock = wfd[w]}
              IN IF mine = {} \/ (Bug = "leak" /\ ~ok[w]) THEN UNCHANGED table
                 ELSE table' = [table EXCEPT ![CHOOSE s \in mine : \A t \in mine : s <= t] = [sock |-> 0, c |-> 0]]
           /\ Goto(w, "dunlock")
           /\ UNCHANGED <<others, ok, lmutex, fdc, gph, closes>>
WDUnlock(w) == /\ wpc[w] = "dunlock" /\ lmutex' = 0 /\ Goto(w, IF Bug = "late_del" THEN "fin" ELSE "close")
               /\ UNCHANGED <<others, ok, table, fdc, gph, closes>>
WClose(w) == /\ wpc[w] = "close"
             /\ fdc' = [fdc EXCEPT ![wfd[w]] = 0]
             /\ LET c == fdc[wfd[w]] IN IF c = 0 THEN UNCHANGED <<closes, gph>>
                                        ELSE closes' = [closes EXCEPT ![c] = @ + 1] /\ gph' = [gph EXCEPT ![c] = "done"]
             /\ Goto(w, IF Bug = "late_del" THEN "dlock" ELSE "fin")
             /\ UNCHANGED <<others, ok, lmutex, table>>
WFin(w) == /\ wpc[w] = "fin" /\ Goto(w, "lock") /\ wc' = [wc EXCEPT ![w] = 0] /\ wfd' = [wfd EXCEPT ![w] = 0]
           /\ UNCHANGED <<cf, backlog, acceptorVars, mutex, queueVars, wait, taken, fails, ok, lmutex, table, fdc, gph, closes>>

Acceptor == AAccept \/ AFilter \/ ALock \/ APut \/ AUnlock \/ ASignal
Worker(w) == \/ WLock(w) \/ WCheck(w) \/ WGet(w) \/ WUnlock(w) \/ WServe(w) \/ WLLock(w) \/ WCount(w) \/ WLLock2(w)
             \/ WRegister(w) \/ WLUnlock(w) \/ WEnter(w) \/ WExit(w) \/ WEnd(w) \/ WDLock(w) \/ WDel(w) \/ WDUnlock(w)
             \/ WClose(w) \/ WFin(w)
Next == (\E c \in Conns : Connect(c)) \/ Acceptor \/ AFail \/ \E w \in Workers : Worker(w) \/ WSpurious(w)
Spec == Init /\ [][Next]_ivars /\ SF_ivars(Acceptor) /\ (\A w \in Workers : SF_ivars(Worker(w))) /\ \A c \in Conns : WF_ivars(Connect(c))

(* ---- refinement ---- *)
Ring == [i \in 1..size |-> LET k == front + i - 1 IN fdc[el[IF k >= Cap THEN k - Cap ELSE k]]]
Abs == INSTANCE Server WITH acc <- ac, queue <- Ring, wk <- wc, ph <- gph,
         live <- {table[s].c : s \in {t \in Slots : table[t].sock # 0}},
         fd <- [c \in Conns |-> IF \E d \in Fds : fdc[d] = c THEN CHOOSE d \in Fds : fdc[d] = c ELSE 0]
Refines == [][Abs!SNext]_(Abs!svars)

Inv == /\ Abs!TypeOK /\ Abs!ServedInOrder /\ Abs!ServedOnce /\ Abs!OpenApart /\ Abs!ClosedAtTheEnd
       /\ Abs!LimitsHeld /\ Abs!RunningCounts /\ Abs!OnlyInProgressCount /\ Abs!CapacityRestored
MutualExclusion == /\ Cardinality({w \in Workers : wpc[w] \in {"check", "get", "unlock"}}) + (IF apc \in {"put", "unlock"} THEN 1 ELSE 0) <= 1
                   /\ Cardinality({w \in Workers : wpc[w] \in {"count", "register", "lunlock", "del", "dunlock"}}) <= 1
(* a limit is never exceeded by handlers that run, whatever the table says *)
RunningLimit == \A r \in 1..Len(cf.rules) : Cardinality({c \in Conns : gph[c] = "running" /\ r \in cf.hits[c]}) <= cf.rules[r].max
TakenOnce == \A i, j \in 1..Len(taken) : i # j => taken[i] # taken[j]
TakenReal == \A i \in 1..Len(taken) : taken[i] # 0
NobodyKept == (\A w \in Workers : wpc[w] \in {"lock", "wait", "relock", "check"}) /\ apc = "accept" /\ size = 0 =>
                 \A d \in Fds : fdc[d] = 0
RefusedJustly == [][\A c \in Conns : gph[c] # "refused" /\ gph'[c] = "refused" =>
                     \E r \in cf.hits[c] : \/ Cardinality({o \in Conns \ {c} : r \in cf.hits[o] /\ gph[o] \in {"admitted", "running", "served", "done"} /\ \E w \in Workers : wc[w] = o}) >= cf.rules[r].max
                                           \/ Cardinality({o \in Conns \ {c} : r \in cf.hits[o] /\ cf.ip[o] = cf.ip[c] /\ gph[o] \in {"admitted", "running", "served", "done"} /\ \E w \in Workers : wc[w] = o}) >= cf.rules[r].per]_ivars
(* no worker sleeps while connections wait for which nobody is on his way *)
NobodySleeps == wait # {} /\ apc \notin {"unlock", "signal"} =>
                  size <= Cardinality({w \in Workers : wpc[w] \in {"lock", "relock", "check", "get"}})
AllEnd == <>[](\A c \in Conns : gph[c] = "done")
=============================================================================
