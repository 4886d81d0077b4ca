---------------------------- MODULE MC_IpFilter ----------------------------
(* Allow and deny files of a few lines: emits every combination, and checks that the decision depends on exact lines only. *)
EXTENDS IpFilter, Json
CONSTANTS MaxLines

Lines == {B("1.2.3.4"), B("1.2.3.40"), B("11.2.3.4"), <<>>, B("1.2.3.")}
Ips == {B("1.2.3.4"), B("1.2.3.40"), B("11.2.3.4"), B("9.9.9.9")}
JoinLines(l, c) == l \o <<LF>> \o c
RECURSIVE Contents(_)
Contents(n) == IF n = 0 THEN {<<>>} ELSE Contents(n - 1) \cup {JoinLines(l, c) : l \in Lines, c \in Contents(n - 1)}
NoLast(c) == IF c # <<>> /\ c[Len(c)] = LF THEN Upto(c, Len(c) - 1) ELSE c
Files == {NoFile, Unreadable} \cup Contents(MaxLines) \cup {NoLast(c) : c \in Contents(MaxLines)}

VARIABLES allow, deny
Init == allow \in Files /\ deny \in Files
Next == UNCHANGED <<allow, deny>>
Spec == Init /\ [][Next]_<<allow, deny>>

ClosedWithoutLists == deny = Unreadable \/ allow = Unreadable => \A ip \in Ips : ~Allowed(allow, deny, ip)
DenyWins == \A ip \in Ips : Lists(deny, ip) => ~Allowed(allow, deny, ip)
NobodyWithoutListing == allow # NoFile => \A ip \in Ips : Allowed(allow, deny, ip) => Lists(allow, ip)
OpenByDefault == allow = NoFile /\ deny = NoFile => \A ip \in Ips : Allowed(allow, deny, ip)
LastLineEndIrrelevant == \A ip \in Ips : Lists(deny, ip) = Lists(IF deny \in {NoFile, Unreadable} THEN deny ELSE NoLast(deny), ip)
SetToSeq2(S) == LET RECURSIVE Q(_)
                    Q(s) == IF s = {} THEN <<>> ELSE LET e == CHOOSE x \in s : TRUE IN <<e>> \o Q(s \ {e})
                IN Q(S)
Emit == PrintT("@@" \o ToJson([allow |-> allow, deny |-> deny, ips |-> SetToSeq2(Ips)]))
=============================================================================
