------------------------------ MODULE MC_Text ------------------------------
(* Every short text: what the helpers must return is consistent. Emits the texts for replay. *)
EXTENDS TextHelpers, Json
CONSTANTS MaxLen, Chars
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s

D == 44
SplitIsPieces == LET t == Split(s, D)
                 IN /\ \A i \in 1..Len(t) : t[i] # <<>> /\ ~HasC(t[i], D)
                    /\ Split(Join(t, <<D>>), D) = t
                    /\ Concat(t) = Filter(s, LAMBDA c : c # D)
OnceIsFirst == LET t == SplitOnce(s, <<D>>)
               IN /\ Len(t) \in {1, 2}
                  /\ (Len(t) = 1) = ~HasC(s, D)
                  /\ ~HasC(t[1], D)
                  /\ Len(t) = 2 => \E a, b \in 0..Len(s) : a + Len(t[1]) <= Len(s) /\ b + Len(t[2]) <= Len(s)
                                       /\ SubSeq(s, a + 1, a + Len(t[1])) = t[1] /\ SubSeq(s, b + 1, b + Len(t[2])) = t[2]
TrimIsInner == LET t == Trim(s)
               IN /\ Trim(t) = t
                  /\ t = <<>> \/ (~IsSpace(t[1]) /\ ~IsSpace(t[Len(t)]))
                  /\ Filter(t, LAMBDA c : ~IsSpace(c)) = Filter(s, LAMBDA c : ~IsSpace(c))
FindIsFirst == \A p \in {<<D>>, <<97, D>>, <<D, D>>}, st \in 0..Len(s) :
                 LET r == FindAfter(s, p, st)
                 IN IF r = -1 THEN ~\E i \in (st + 1)..Len(s) : At(s, p, i)
                    ELSE r >= st + Len(p) /\ SubSeq(s, r - Len(p) + 1, r) = p /\ ~\E i \in (st + 1)..(r - Len(p)) : At(s, p, i)
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
