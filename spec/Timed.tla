------------------------------- MODULE Timed -------------------------------
(* Time: connections whose bytes and answers take their time, under limits rules with a maximum of seconds.
   A connection with a rule is dropped once it has lived for longer than its seconds, others never are.
   Every history of L steps is emitted, to be replayed in the real server with a clock the driver moves.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS L, MaxConns, Kinds, Ticks, Slack

\* seconds of the rule of each kind of request, 0 for none
SecsOf(k) == CASE k \in {"api4", "held4", "static4"} -> 4 [] k = "held9" -> 9 [] OTHER -> 0
Held(k) == k \in {"held4", "held9", "held0"}

VARIABLES clock, conns, hist
vars == <<clock, conns, hist>>
Init == clock = 0 /\ conns = <<>> /\ hist = <<>>

Age(c) == clock - conns[c].born
Overdue(c) == conns[c].st \in {"part", "held"} /\ SecsOf(conns[c].kind) > 0 /\ Age(c) > SecsOf(conns[c].kind)
Say(s) == hist' = Append(hist, s)
In(st) == {c \in 1..Len(conns) : conns[c].st = st}

Open(k) == /\ Len(conns) < MaxConns
           /\ conns' = Append(conns, [kind |-> k, born |-> clock, st |-> "part"])
           /\ Say([a |-> "open", c |-> Len(conns) + 1, k |-> k, n |-> 0]) /\ UNCHANGED clock
\* the last bytes of the request arrive
Rest(c) == /\ conns[c].st = "part" /\ ~Overdue(c)
           /\ conns' = [conns EXCEPT ![c].st = IF Held(conns[c].kind) THEN "held" ELSE "answered"]
           /\ Say([a |-> "rest", c |-> c, k |-> "", n |-> 0]) /\ UNCHANGED clock
\* a slow handler comes to its end
Free(c) == /\ conns[c].st = "held" /\ ~Overdue(c)
           /\ conns' = [conns EXCEPT ![c].st = "answered"]
           /\ Say([a |-> "free", c |-> c, k |-> "", n |-> 0]) /\ UNCHANGED clock
\* the server drops what is overdue; not a step of the driver
Drop(c) == /\ Overdue(c) /\ conns' = [conns EXCEPT ![c].st = "dropped"] /\ UNCHANGED <<clock, hist>>
\* time goes on, though never far past the moment of a drop
Tick(n) == /\ \A c \in 1..Len(conns) : ~(Overdue(c) /\ Age(c) > SecsOf(conns[c].kind) + Slack)
           /\ In("part") \cup In("held") # {}
           /\ clock' = clock + n /\ Say([a |-> "tick", c |-> 0, k |-> "", n |-> n]) /\ UNCHANGED conns
Next == \/ \E c \in 1..Len(conns) : Drop(c)
        \/ /\ Len(hist) < L
           /\ \/ \E k \in Kinds : Open(k)
              \/ \E c \in 1..Len(conns) : Rest(c) \/ Free(c)
              \/ \E n \in Ticks : Tick(n)
Spec == Init /\ [][Next]_vars /\ \A c \in 1..MaxConns : WF_vars(c <= Len(conns) /\ Drop(c))

Early == [][\A c \in 1..Len(conns) : (conns[c].st # "dropped" /\ conns'[c].st = "dropped") =>
              SecsOf(conns[c].kind) > 0 /\ Age(c) > SecsOf(conns[c].kind)]_vars
IsOverdue(c) == c <= Len(conns) /\ Overdue(c)
IsDropped(c) == c <= Len(conns) /\ conns[c].st = "dropped"
Late == \A c \in 1..MaxConns : IsOverdue(c) ~> IsDropped(c)
NoRuleNoDrop == \A c \in In("dropped") : SecsOf(conns[c].kind) > 0
Emit == IF Len(hist) = L THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
