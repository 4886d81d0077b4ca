------------------------------- MODULE Limits -------------------------------
(* The limits file, and when a request is refused because of it. *)
EXTENDS Bytes

MaxRules == 64
MaxRulePath == 511

(* Lines of a text file: what is between line feeds; a last line needs none *)
FileLines(f) == LET p == Pieces(f, LF) IN IF p[Len(p)] = <<>> THEN Upto(p, Len(p) - 1) ELSE p

Fields(line) == Pieces(line, 44)
Number(f) == LET t == Trim(f) IN IF AllDigits(t) THEN Val(t) ELSE 0
NumberOk(f) == LET t == Trim(f) IN AllDigits(t) /\ Len(t) <= 8
IsRule(line) == line # <<>> /\ line[1] = 47 /\ Len(Fields(line)) >= 3 /\ Len(Fields(line)[1]) <= MaxRulePath
(* Lines whose meaning the documentation does not settle: empty or non-numeric fields *)
IsOdd(line) == /\ line # <<>> /\ line[1] = 47
               /\ \/ \E i \in 1..Len(Fields(line)) : Trim(Fields(line)[i]) = <<>>
                  \/ \E i \in 2..Len(Cut(Fields(line), 4)) : ~NumberOk(Fields(line)[i])
RuleOf(line) == LET f == Fields(line)
                IN [path |-> Trim(f[1]), max |-> Number(f[2]), per |-> Number(f[3]),
                    secs |-> IF Len(f) >= 4 THEN Number(f[4]) ELSE 0]
ParseLimits(f) == Cut(Map(Filter(FileLines(f), IsRule), RuleOf), MaxRules)
Settled(f) == ~HasC(f, 0) /\ \A i \in 1..Len(FileLines(f)) : ~IsOdd(FileLines(f)[i])

Applies(rule, url) == StartsWithNC(url, rule.path)

(* others: the requests in progress, as records with url and ip *)
Total(rule, others) == Cardinality({o \in others : Applies(rule, o.url)})
PerIp(rule, ip, others) == Cardinality({o \in others : Applies(rule, o.url) /\ o.ip = ip})
LimitReached(rule, ip, others) == Total(rule, others) >= rule.max \/ PerIp(rule, ip, others) >= rule.per
MayAdmit(rules, url, ip, others) ==
  \A i \in 1..Len(rules) : Applies(rules[i], url) => ~LimitReached(rules[i], ip, others)
=============================================================================
