------------------------------- MODULE BytesRef -------------------------------
(* A copy of Bytes.tla under another name, which TLC evaluates from the definitions (see java/Bytes.java). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                   31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

(* The bytes of a printable string *)
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

NUL == 0
TAB == 9
LF == 10
CR == 13
SP == 32
QUOTE == 34
CRLF == <<13, 10>>

IsSpace(c) == c \in 9..13 \/ c = 32
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

(* p occurs in s at position i *)
At(s, p, i) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
AtNC(s, p, i) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : LowerC(s[i + k - 1]) = LowerC(p[k])
StartsWith(s, p) == At(s, p, 1)
StartsWithNC(s, p) == AtNC(s, p, 1)
EndsWith(s, p) == Len(p) <= Len(s) /\ At(s, p, Len(s) - Len(p) + 1)
EqNC(a, b) == Len(a) = Len(b) /\ AtNC(a, b, 1)

(* The first position >= from in lo..hi that satisfies P, or 0 *)
First(lo, hi, P(_)) ==
  IF \E i \in lo..hi : P(i)
  THEN CHOOSE i \in lo..hi : P(i) /\ \A j \in lo..(i - 1) : ~P(j)
  ELSE 0
Last(lo, hi, P(_)) ==
  LET f == First(0, hi - lo, LAMBDA k : P(hi - k))
  IN IF \E i \in lo..hi : P(i) THEN hi - f ELSE 0

FindC(s, c, from) == First(from, Len(s), LAMBDA i : s[i] = c)
Find(s, p, from) ==
  IF p = <<>> THEN (IF from <= Len(s) + 1 THEN from ELSE 0)
  ELSE First(from, Len(s) - Len(p) + 1, LAMBDA i : s[i] = p[1] /\ At(s, p, i))
FindNC(s, p, from) == First(from, Len(s) - Len(p) + 1, LAMBDA i : AtNC(s, p, i))
Contains(s, p) == Find(s, p, 1) # 0
HasC(s, c) == \E i \in 1..Len(s) : s[i] = c

(* What a C string holds of these bytes *)
CStr(s) == LET n == FindC(s, 0, 1) IN IF n = 0 THEN s ELSE Upto(s, n - 1)

LTrim(s) == LET f == First(1, Len(s), LAMBDA i : ~IsSpace(s[i])) IN IF f = 0 THEN <<>> ELSE From(s, f)
RTrim(s) == LET f == Last(1, Len(s), LAMBDA i : ~IsSpace(s[i])) IN IF f = 0 THEN <<>> ELSE Upto(s, f)
Trim(s) == RTrim(LTrim(s))

(* Lines end with CR LF, and CR, LF and NUL occur nowhere else *)
CrLfLines(h) == \A i \in 1..Len(h) :
                   /\ h[i] = CR => i < Len(h) /\ h[i + 1] = LF
                   /\ h[i] = LF => i > 1 /\ h[i - 1] = CR
                   /\ h[i] # NUL
(* There is an empty line after another line, whatever the line ends *)
EmptyLine(s) == \E i \in 1..Len(s) :
                   s[i] = LF /\ \/ i + 1 <= Len(s) /\ s[i + 1] = LF
                                \/ i + 2 <= Len(s) /\ s[i + 1] = CR /\ s[i + 2] = LF
Visible(s) == \A i \in 1..Len(s) : s[i] > 32 /\ s[i] < 127

Cut(s, n) == IF Len(s) > n THEN Upto(s, n) ELSE s

(* The pieces of s between occurrences of the byte c; n occurrences give n + 1 pieces *)
Pieces(s, c) ==
  LET cuts == {i \in 1..Len(s) : s[i] = c}
      n == Cardinality(cuts)
      RECURSIVE P(_, _)
      P(from, k) == LET e == FindC(s, c, from)
                    IN IF k = 0 THEN <<From(s, from)>> ELSE <<SubSeq(s, from, e - 1)>> \o P(e + 1, k - 1)
  IN P(1, n)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecN(n \div 10) \o <<48 + n - 10 * (n \div 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o DecN(-n) ELSE DecN(n)

AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE Val(Upto(s, Len(s) - 1)) * 10 + (s[Len(s)] - 48)

Range(s) == {s[i] : i \in 1..Len(s)}
SelectIdx(s, P(_)) ==
  LET RECURSIVE S(_)
      S(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<i>> ELSE <<>>) \o S(i + 1)
  IN S(1)
Filter(s, P(_)) == LET ix == SelectIdx(s, P) IN [k \in 1..Len(ix) |-> s[ix[k]]]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
=============================================================================
