------------------------------ MODULE JsonText ------------------------------
(* JSON documents as bytes: which are valid, and what they stand for.
   A value is [t |-> "s", v |-> bytes], [t |-> "n", v |-> bytes of the number], [t |-> "w", v |-> "true", "false" or "null"],
   [t |-> "a", v |-> sequence of values] or [t |-> "o", v |-> sequence of <<key, value>>].                               *)
EXTENDS Bytes

Bad == [ok |-> FALSE]
Res(v, e) == [ok |-> TRUE, v |-> v, e |-> e]

IsBlank(c) == c \in {32, 9, 10, 13}
Skip(s, i) == LET f == First(i, Len(s), LAMBDA k : ~IsBlank(s[k])) IN IF f = 0 THEN Len(s) + 1 ELSE f
Hex(c) == IF IsDigit(c) THEN c - 48 ELSE LowerC(c) - 87

(* The text of a string that begins at i, after its quote; bytes above 127 stand for themselves *)
RECURSIVE StrFrom(_, _, _)
StrFrom(s, i, acc) ==
  LET q == First(i, Len(s), LAMBDA k : s[k] = 34 \/ s[k] = 92 \/ s[k] < 32)
      txt == acc \o SubSeq(s, i, q - 1)
      One(c) == StrFrom(s, q + 2, txt \o <<c>>)
  IN IF q = 0 THEN Bad
     ELSE IF s[q] < 32 THEN Bad
     ELSE IF s[q] = 34 THEN Res([t |-> "s", v |-> txt], q + 1)
     ELSE IF q = Len(s) THEN Bad
     ELSE CASE s[q + 1] \in {34, 92, 47} -> One(s[q + 1])
            [] s[q + 1] = 98 -> One(8)
            [] s[q + 1] = 102 -> One(12)
            [] s[q + 1] = 110 -> One(10)
            [] s[q + 1] = 114 -> One(13)
            [] s[q + 1] = 116 -> One(9)
            [] s[q + 1] = 117 /\ q + 5 <= Len(s) /\ (\A k \in 2..5 : IsHex(s[q + k])) ->
                 LET c == Hex(s[q + 2]) * 4096 + Hex(s[q + 3]) * 256 + Hex(s[q + 4]) * 16 + Hex(s[q + 5])
                 IN IF c < 128 THEN StrFrom(s, q + 6, txt \o <<c>>) ELSE Bad
            [] OTHER -> Bad

DigitsEnd(s, i) == LET f == First(i, Len(s), LAMBDA k : ~IsDigit(s[k])) IN IF f = 0 THEN Len(s) + 1 ELSE f
Num(s, i) ==
  LET a == IF s[i] = 45 THEN i + 1 ELSE i
      b == DigitsEnd(s, a)
      frac == b < Len(s) /\ s[b] = 46 /\ IsDigit(s[b + 1])
      c == IF frac THEN DigitsEnd(s, b + 1) ELSE b
      sg == c < Len(s) /\ s[c] \in {69, 101} /\ s[c + 1] \in {43, 45}
      ex == c < Len(s) /\ s[c] \in {69, 101}
      d == IF ~ex THEN c ELSE DigitsEnd(s, IF sg THEN c + 2 ELSE c + 1)
  IN IF b = a THEN Bad
     ELSE IF s[a] = 48 /\ b > a + 1 THEN Bad
     ELSE IF ex /\ ~(d <= Len(s) + 1 /\ IsDigit(s[d - 1])) THEN Bad
     ELSE Res([t |-> "n", v |-> SubSeq(s, i, d - 1)], d)

Word(s, i, w) == IF At(s, B(w), i) THEN Res([t |-> "w", v |-> B(w)], i + Len(w)) ELSE Bad

RECURSIVE Value(_, _), Elements(_, _, _), Members(_, _, _)
Value(s, i0) ==
  LET i == Skip(s, i0)
  IN IF i > Len(s) THEN Bad
     ELSE CASE s[i] = 34 -> StrFrom(s, i + 1, <<>>)
            [] s[i] = 91 -> LET j == Skip(s, i + 1)
                            IN IF j <= Len(s) /\ s[j] = 93 THEN Res([t |-> "a", v |-> <<>>], j + 1) ELSE Elements(s, i + 1, <<>>)
            [] s[i] = 123 -> LET j == Skip(s, i + 1)
                             IN IF j <= Len(s) /\ s[j] = 125 THEN Res([t |-> "o", v |-> <<>>], j + 1) ELSE Members(s, i + 1, <<>>)
            [] s[i] = 116 -> Word(s, i, "true")
            [] s[i] = 102 -> Word(s, i, "false")
            [] s[i] = 110 -> Word(s, i, "null")
            [] s[i] = 45 \/ IsDigit(s[i]) -> Num(s, i)
            [] OTHER -> Bad
Elements(s, i, acc) ==
  LET x == Value(s, i)
  IN IF ~x.ok THEN Bad
     ELSE LET j == Skip(s, x.e)
          IN IF j > Len(s) THEN Bad
             ELSE IF s[j] = 93 THEN Res([t |-> "a", v |-> Append(acc, x.v)], j + 1)
             ELSE IF s[j] = 44 THEN Elements(s, j + 1, Append(acc, x.v)) ELSE Bad
Members(s, i, acc) ==
  LET k == Skip(s, i)
      n == IF k <= Len(s) /\ s[k] = 34 THEN StrFrom(s, k + 1, <<>>) ELSE Bad
  IN IF ~n.ok THEN Bad
     ELSE LET c == Skip(s, n.e)
              x == IF c <= Len(s) /\ s[c] = 58 THEN Value(s, c + 1) ELSE Bad
          IN IF ~x.ok THEN Bad
             ELSE LET j == Skip(s, x.e)
                  IN IF j > Len(s) THEN Bad
                     ELSE IF s[j] = 125 THEN Res([t |-> "o", v |-> Append(acc, <<n.v.v, x.v>>)], j + 1)
                     ELSE IF s[j] = 44 THEN Members(s, j + 1, Append(acc, <<n.v.v, x.v>>)) ELSE Bad

(* The value of a whole document *)
Document(s) == LET x == Value(s, 1) IN IF ~x.ok THEN Bad ELSE IF Skip(s, x.e) <= Len(s) THEN Bad ELSE x

RECURSIVE SameVal(_, _)
SameVal(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : SameVal(a.v[i], b.v[i])
       [] a.t = "o" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : a.v[i][1] = b.v[i][1] /\ SameVal(a.v[i][2], b.v[i][2])
       [] OTHER -> a.v = b.v

(* What documents and fragments must stand for *)
IsDoc(s, v) == LET x == Document(s) IN x.ok /\ SameVal(x.v, v)
JStr(b) == [t |-> "s", v |-> b]
JNum(b) == [t |-> "n", v |-> b]
JWord(w) == [t |-> "w", v |-> B(w)]
JArr(vs) == [t |-> "a", v |-> vs]
IsMember(s, key, v) == IsDoc(<<123>> \o s \o <<125>>, [t |-> "o", v |-> <<<<key, v>>>>])
=============================================================================
