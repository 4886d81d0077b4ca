----------------------------- MODULE MC_Server -----------------------------
(* The abstract server, checked exhaustively for small numbers. *)
EXTENDS Server, TLC
CONSTANTS N, W, Cap, Configs

Ips == <<1, 1, 2, 1, 2>>
Cfg(kinds, hits, rules) == [conns |-> 1..N, workers |-> 1..W, fds |-> 4..(3 + N), cap |-> Cap, rules |-> rules,
                            ip |-> [c \in 1..N |-> Ips[c]], hits |-> [c \in 1..N |-> hits[c]], kind |-> [c \in 1..N |-> kinds[c]]]
Kinds == <<"req", "req", "bad", "req", "denied">>
Plain == <<"req", "req", "req", "req", "req">>
cfgs == [ a |-> Cfg(Plain, <<{1}, {1}, {1}, {1}, {1}>>, <<[max |-> 1, per |-> 1]>>),
          b |-> Cfg(Plain, <<{1}, {1, 2}, {1}, {2}, {}>>, <<[max |-> 2, per |-> 1], [max |-> 1, per |-> 1]>>),
          c |-> Cfg(Kinds, <<{1}, {1}, {1}, {}, {1}>>, <<[max |-> 2, per |-> 1]>>),
          d |-> Cfg(<<"req", "denied", "gone", "bad", "req">>, <<{}, {1}, {1}, {1}, {1}>>, <<[max |-> 0, per |-> 5]>>) ]

Init == \E k \in Configs : InitWith(cfgs[k])
Spec == Init /\ [][SNext]_svars /\ WF_svars(Acceptor) /\ (\A w \in 1..W : WF_svars(Worker(w))) /\ \A c \in 1..N : WF_svars(Connect(c))

(* C04: whoever is refused, a limit was reached at that moment *)
RefusedJustly == [][\A c \in 1..N : ph[c] # "refused" /\ ph'[c] = "refused" => Reached(c)]_svars
(* C01, C02: everybody is served or turned away in the end *)
AllEnd == <>[](\A c \in 1..N : ph[c] = "done")
(* C04 *)
AllFree == <>[](live = {})
=============================================================================
