----------------------------- MODULE MC_Router -----------------------------
(* Tables of routes and requests: dispatch is decided by the first matching route alone. Emits tables and requests. *)
EXTENDS Router, Json

CONSTANTS MaxTable, FilterKinds

Templates == {B("GET:/a"), B("POST:/a"), B("GET:/a/b"), B("GET:/a/{x}"), B("GET:/{y}"), B("GET:/ab"), B("GET:/a{z}"), B("POST:/a/{x}")}
Paths == {<<>>, B("/"), B("/a"), B("/a/"), B("/a/b"), B("/ab"), B("/a/b/c"), B("/A"), B("/b"), B("/a/x=1&y")}
Verbs == {B("GET"), B("POST"), B("PUT")}
Forms == IF FilterKinds = {0} THEN {<<>>} ELSE {<<>>, B("ok")}

VARIABLE table
Init == table = <<>>
Next == Len(table) < MaxTable /\ \E t \in Templates, f \in FilterKinds : table' = Append(table, <<t, f>>)
Spec == Init /\ [][Next]_table

Ts == [i \in 1..Len(table) |-> table[i][1]]
IsFirst == \A v \in Verbs, p \in Paths :
             LET r == Route(Ts, v, p) IN
             IF r = 0 THEN \A i \in 1..Len(Ts) : ~Matches(Ts[i], Target(v, p))
             ELSE Matches(Ts[r], Target(v, p)) /\ \A i \in 1..(r - 1) : ~Matches(Ts[i], Target(v, p))
(* A later route never changes what earlier ones decide *)
Stable == table = <<>> \/ \A v \in Verbs, p \in Paths :
             LET r == Route(Upto(Ts, Len(Ts) - 1), v, p) IN r # 0 => Route(Ts, v, p) = r
(* The method is part of the match, exactly *)
MethodExact == \A v \in Verbs, p \in Paths :
             LET r == Route(Ts, v, p) IN r # 0 => StartsWith(Ts[r], v \o <<58>>)
Rebuilds == \A v \in Verbs, p \in Paths :
             LET r == Route(Ts, v, p) IN
             (r # 0 /\ HasParam(Ts[r])) =>
                LET f == FormWith(Ts[r], v, p, <<>>)
                    eq == FindC(f, 61, 1)
                IN Prefix(Ts[r]) \o From(f, eq + 1) = Target(v, p)

SetToSeq2(S) == LET RECURSIVE Q(_)
                    Q(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE x \in s : TRUE IN <<e>> \o Q(s \ {e})
                IN Q(S)
Emit == table = <<>> \/ PrintT("@@" \o ToJson([table |-> table, forms |-> SetToSeq2(Forms),
                                               reqs |-> SetToSeq2({<<v, p>> : v \in Verbs, p \in Paths})]))
=============================================================================
