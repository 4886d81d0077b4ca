----------------------------- MODULE MC_Limits -----------------------------
(* Limits files of a few lines, after a number of other rules.  Checks that lines count one by one, that only the lines that
   are rules count, whatever ends them, and that rules written down are the rules read.  Emits every file.                  *)
EXTENDS Limits, Json, TLC
CONSTANTS MaxLines, Alphabet, Fills

Path(k) == <<47>> \o [i \in 1..(k - 1) |-> 97]
Few == {B("/a,1,2"), B("/a,1,2,3"), B("/b , 3,") \o <<9>> \o B("4 "), B("#/a,1,2"), <<>>, B(" /a,1,1"), B("/x,1"), B("/A,0,0,0"), B("text, 1, 2, 3"), B("/a,1,2,3,4")}
Many == Few \cup {B("/a/b?c=d,65536,99999,12345678"), Path(511) \o B(",7,8"), Path(512) \o B(",7,8"), Path(255) \o B(",1,1,1"), Path(504) \o B(",9,9,9,9"), B("/"), B("/,1,1"),
                  Path(1020) \o B(",1"), B("//,1,1"), B("/x,1,2,text"), B("/x,01,002")}

VARIABLES lines, fill, eol, open
vars == <<lines, fill, eol, open>>
Init == lines = <<>> /\ fill \in Fills /\ eol \in {<<LF>>, CRLF} /\ open = FALSE
Add == ~open /\ Len(lines) < MaxLines /\ \E x \in Alphabet : lines' = Append(lines, x) /\ UNCHANGED <<fill, eol, open>>
Open == ~open /\ lines # <<>> /\ lines[Len(lines)] # <<>> /\ open' = TRUE /\ UNCHANGED <<lines, fill, eol>>
Next == Add \/ Open
Spec == Init /\ [][Next]_vars

Filler == [i \in 1..fill |-> B("/f") \o Dec(i) \o B(",1,1")]
FileOf(ls, nl) == Concat([i \in 1..Len(ls) |-> ls[i] \o nl])
Cutlast(f, nl) == IF open THEN Upto(f, Len(f) - Len(nl)) ELSE f
File == Cutlast(FileOf(Filler \o lines, eol), eol)
Rules == ParseLimits(File)
Write(r) == r.path \o <<44>> \o Dec(r.max) \o <<44>> \o Dec(r.per) \o <<44>> \o Dec(r.secs)

AtMost == Len(Rules) <= MaxRules
OneByOne == Rules = Cut(Concat([i \in 1..fill |-> ParseLimits(Filler[i])]) \o Concat([i \in 1..Len(lines) |-> ParseLimits(lines[i])]), MaxRules)
OnlyRules == Rules = ParseLimits(FileOf(Filter(Filler \o lines, IsRule), <<LF>>))
EndsIrrelevant == Rules = ParseLimits(FileOf(Filler \o lines, <<LF>>)) /\ Rules = ParseLimits(FileOf(Filler \o lines, CRLF))
WrittenAndRead == Rules = ParseLimits(FileOf([i \in 1..Len(Rules) |-> Write(Rules[i])], <<LF>>))
(* What a rule refuses: nobody beyond its maximum, nobody of other paths *)
Refuses == \A i \in 1..Len(Rules) : /\ Applies(Rules[i], Rules[i].path)
                                    /\ (Rules[i].max = 0 => ~MayAdmit(Rules, Rules[i].path, <<>>, {}))
Emit == PrintT("@@" \o ToJson([f |-> File]))
=============================================================================
