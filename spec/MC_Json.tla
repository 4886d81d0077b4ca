------------------------------ MODULE MC_Json ------------------------------
(* Every short text survives being written as a JSON string and read again; texts that are no JSON are refused.
   Emits lists of texts for replay.                                                                            *)
EXTENDS JsonText, Json
CONSTANTS MaxLen, Chars, MaxList
VARIABLES list, done
Init == list = <<<<>>>> /\ done = FALSE
More == /\ ~done
        /\ \/ Len(list[Len(list)]) < MaxLen /\ \E c \in Chars : list' = [list EXCEPT ![Len(list)] = Append(@, c)]
           \/ Len(list) < MaxList /\ list' = Append(list, <<>>)
        /\ UNCHANGED done
Next == More
Spec == Init /\ [][Next]_<<list, done>>

HexD == B("0123456789abcdef")
EscC(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c < 32 THEN B("\\u00") \o <<HexD[c \div 16 + 1], HexD[c - 16 * (c \div 16) + 1]>> ELSE <<c>>
Esc(s) == Concat([i \in 1..Len(s) |-> EscC(s[i])])
Quote(s) == <<34>> \o Esc(s) \o <<34>>
Doc == <<91>> \o JoinWith([i \in 1..Len(list) |-> Quote(list[i])], <<44>>) \o <<93>>
RoundTrip == IsDoc(Doc, JArr([i \in 1..Len(list) |-> JStr(list[i])]))
Truncated == \A n \in 1..(Len(Doc) - 1) : ~Document(Upto(Doc, n)).ok
Unescaped == \A i \in 1..Len(list) : HasC(list[i], 10) => ~Document(<<34>> \o list[i] \o <<34>>).ok
Emit == PrintT("@@" \o ToJson(list))
=============================================================================
