------------------------------ MODULE Histories ------------------------------
(* Requests that begin and end one after the other, under limits: every history of a given length is emitted, to be
   replayed into the real server, whose handlers are held until the history lets them end.                         *)
EXTENDS Limits, TLC, Json
CONSTANTS L, MaxRunning, RuleFile, Urls, Ips

VARIABLES hist, running     \* running: numbers of the steps that began requests which have not ended

(* the lines of the limits file, separated by semicolons *)
File == [i \in 1..Len(B(RuleFile)) |-> IF B(RuleFile)[i] = 59 THEN LF ELSE B(RuleFile)[i]]
Rules == ParseLimits(File)
Others == {[url |-> B(hist[k].u), ip |-> hist[k].ip, k |-> k] : k \in running}

Init == hist = <<>> /\ running = {}
Begin(u, ip) ==
  LET ok == MayAdmit(Rules, B(u), ip, Others)
  IN /\ (ok => Cardinality(running) < MaxRunning)
     /\ hist' = Append(hist, [a |-> "begin", u |-> u, ip |-> ip, ok |-> ok])
     /\ running' = IF ok THEN running \cup {Len(hist) + 1} ELSE running
Finish(k) == /\ hist' = Append(hist, [a |-> "end", k |-> k]) /\ running' = running \ {k}
Next == /\ Len(hist) < L
        /\ \/ \E u \in Urls : \E ip \in Ips : Begin(u, ip)
           \/ \E k \in running : Finish(k)
Spec == Init /\ [][Next]_<<hist, running>>

(* C03 *)
NeverExceeded == \A i \in 1..Len(Rules) :
                   /\ Total(Rules[i], Others) <= Rules[i].max
                   /\ \A o \in Others : Applies(Rules[i], o.url) => PerIp(Rules[i], o.ip, Others) <= Rules[i].per
(* C04 *)
NobodyRunsAllAdmitted == running = {} => \A u \in Urls : \A ip \in Ips :
                           MayAdmit(Rules, B(u), ip, Others) <=> \A i \in 1..Len(Rules) : Applies(Rules[i], B(u)) => Rules[i].max > 0 /\ Rules[i].per > 0
Emit == IF Len(hist) = L THEN PrintT("@@" \o ToJson([rules |-> RuleFile, h |-> hist])) ELSE TRUE
=============================================================================
