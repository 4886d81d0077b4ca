------------------------------ MODULE MC_Conf ------------------------------
(* Every short configuration file: what is read can be written, and is read the same again. Emits the files for replay. *)
EXTENDS ConfFile, Json
CONSTANTS MaxLen, Chars
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Flags == <<[key |-> B("k"), multi |-> 0], [key |-> B("m"), multi |-> 1], [key |-> <<>>, multi |-> 0]>>
R == ReadConf(s, Flags)
AsLine(it) == [key |-> it.key, value |-> it.value, multi |-> it.multi]
RoundTrip == (\A i \in 1..Len(R.items) : Writable(R.items[i])) =>
               LET again == ReadConf(WriteConf(R.items), Flags)
               IN /\ again.ok
                  /\ Len(again.items) = Len(R.items)
                  /\ \A i \in 1..Len(R.items) : again.items[i].key = R.items[i].key /\ again.items[i].multi = R.items[i].multi
                                                /\ (R.items[i].multi = <<>> => again.items[i].value = R.items[i].value)
OnlyKnown == \A i \in 1..Len(R.items) : FlagOf(R.items[i].key, Flags) # 0
AllDelivered == R.ok => Len(R.items) = Cardinality({i \in 1..Len(Lines(s)) : FlagOf(KeyOf(Lines(s)[i]), Flags) # 0})
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
