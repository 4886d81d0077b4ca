---------------------------- MODULE TextHelpers ----------------------------
(* What the helpers of string_utils.c return. *)
EXTENDS Bytes

(* The pieces of a text between single delimiters, without the empty ones *)
Split(s, d) == Filter(Pieces(s, d), LAMBDA p : p # <<>>)

(* The two parts around the first delimiter, without surrounding space *)
SplitOnce(s, d) == LET i == Find(s, d, 1)
                   IN IF i = 0 THEN <<Trim(s)>> ELSE <<Trim(Upto(s, i - 1)), Trim(From(s, i + Len(d)))>>

Join(ss, d) == JoinWith(ss, d)

(* The text before the first occurrence of the byte *)
Before(s, c) == LET i == FindC(s, c, 1) IN IF i = 0 THEN s ELSE Upto(s, i - 1)
(* The text before the first byte that is not printable, a space, '!' or '"' *)
Chop(s) == LET i == First(1, Len(s), LAMBDA k : s[k] <= 34) IN IF i = 0 THEN s ELSE Upto(s, i - 1)

StartsWithAny(s, ps) == \E i \in 1..Len(ps) : StartsWithNC(s, ps[i]) /\ \A k \in 1..i : ps[k] # <<>>

(* The position (from 0) right after the first occurrence at or after start, or -1 *)
FindAfter(s, p, start) == LET i == Find(s, p, start + 1) IN IF i = 0 THEN -1 ELSE i - 1 + Len(p)

AlNum(s) == s # <<>> /\ \A i \in 1..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i])
=============================================================================
