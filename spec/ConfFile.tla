------------------------------ MODULE ConfFile ------------------------------
(* Configuration files: lines "key=value" or "key=value1,value2,.." *)
EXTENDS Bytes

EQ == 61
COMMA == 44
MaxLine == 510      (* bytes of a line that the reader takes as one *)
MaxMulti == 20

Lines(x) == LET p == Pieces(x, LF) IN IF p[Len(p)] = <<>> THEN Upto(p, Len(p) - 1) ELSE p
InDomain(x) == ~HasC(x, NUL) /\ \A i \in 1..Len(Lines(x)) : Len(Lines(x)[i]) <= MaxLine

Elems(v) == LET p == Filter(Pieces(v, COMMA), LAMBDA e : e # <<>>)
                q == [i \in 1..Len(p) |-> Trim(p[i])]
            IN IF Len(q) > MaxMulti THEN Upto(q, MaxMulti) ELSE q
(* lists with blank elements are not defined *)
ElemsDefined(v) == \A i \in 1..Len(Elems(v)) : Elems(v)[i] # <<>>

KeyOf(line) == Trim(Upto(line, FindC(line, EQ, 1) - 1))
ValueOf(line) == Trim(From(line, FindC(line, EQ, 1) + 1))
Item(line, multi) == [key |-> KeyOf(line), value |-> ValueOf(line), multi |-> IF multi THEN Elems(ValueOf(line)) ELSE <<>>]

(* flags: which keys are known, and which of them are lists *)
FlagOf(key, flags) == First(1, Len(flags), LAMBDA i : flags[i].key = key)

RECURSIVE ReadLines(_, _)
ReadLines(ls, flags) ==
  IF ls = <<>> THEN [ok |-> TRUE, items |-> <<>>]
  ELSE IF ~HasC(ls[1], EQ) THEN [ok |-> FALSE, items |-> <<>>]
  ELSE LET rest == ReadLines(Tail(ls), flags)
           f == FlagOf(KeyOf(ls[1]), flags)
       IN [ok |-> rest.ok, items |-> IF f = 0 THEN rest.items ELSE <<Item(ls[1], flags[f].multi = 1)>> \o rest.items]
ReadConf(x, flags) == ReadLines(Lines(x), flags)

(* Writing items *)
LineOf(it) == it.key \o <<EQ>> \o (IF it.multi = <<>> THEN it.value ELSE JoinWith(it.multi, <<COMMA>>))
Clean(b) == ~HasC(b, NUL) /\ ~HasC(b, LF) /\ Trim(b) = b
Writable(it) == /\ Clean(it.key) /\ ~HasC(it.key, EQ)
                /\ Clean(it.value)
                /\ \A i \in 1..Len(it.multi) : Clean(it.multi[i]) /\ it.multi[i] # <<>> /\ ~HasC(it.multi[i], COMMA)
                /\ Len(it.multi) <= MaxMulti
                /\ Len(LineOf(it)) <= MaxLine
WriteConf(items) == Concat([i \in 1..Len(items) |-> LineOf(items[i]) \o <<LF>>])

(* The text of items for people: the path, how many there are, and each of them *)
ShowConf(path, items) == B("[path=") \o path \o B(",n_items=") \o Dec(Len(items))
                         \o Concat([i \in 1..Len(items) |-> <<COMMA>> \o LineOf(items[i])]) \o B("]")
=============================================================================
