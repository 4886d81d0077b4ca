------------------------------ MODULE MC_Bytes ------------------------------
(* The operators that TLC evaluates in Java agree with their definitions, for all short texts. *)
EXTENDS Bytes
CONSTANTS MaxLen
R == INSTANCE BytesRef
Alpha == {0, 9, 10, 13, 32, 65, 97, 200}
Small == {<<>>, <<10>>, <<97>>, <<65, 97>>, <<13, 10>>, <<13, 10, 13, 10>>, <<97, 97>>}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Agree ==
  /\ \A i \in 1..(Len(s) + 2), p \in Small : /\ At(s, p, i) = R!At(s, p, i)
                                             /\ AtNC(s, p, i) = R!AtNC(s, p, i)
                                             /\ Find(s, p, i) = R!Find(s, p, i)
                                             /\ (p # <<>> => FindNC(s, p, i) = R!FindNC(s, p, i))
  /\ \A i \in 1..(Len(s) + 2), c \in Alpha : FindC(s, c, i) = R!FindC(s, c, i)
  /\ \A c \in Alpha : HasC(s, c) = R!HasC(s, c) /\ Pieces(s, c) = R!Pieces(s, c)
  /\ Trim(s) = R!Trim(s)
  /\ CStr(s) = R!CStr(s)
  /\ Lower(s) = R!Lower(s)
  /\ CrLfLines(s) = R!CrLfLines(s)
  /\ EmptyLine(s) = R!EmptyLine(s)
  /\ Visible(s) = R!Visible(s)
=============================================================================
