------------------------------- MODULE MC_Log -------------------------------
(* Histories of levels and messages. A log that has exactly the lines it should have is accepted; one with a line
   less, or a line more, is not. Emits the histories for replay.                                                 *)
EXTENDS LogFile, Json
CONSTANTS MaxOps, Levels
VARIABLE ops
Ops == {[o |-> "level", n |-> n] : n \in Levels} \cup {[o |-> "ask", n |-> n] : n \in Levels}
       \cup {[o |-> "msg", lv |-> n, fmt |-> 2, s |-> B("hi"), d |-> 7, ds |-> B("7")] : n \in Levels}
Init == ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in Ops : ops' = Append(ops, o)
Spec == Init /\ [][Next]_ops

RECURSIVE LevelAt(_)
LevelAt(k) == IF k = 0 THEN 2 ELSE IF ops[k].o = "level" THEN ops[k].n ELSE LevelAt(k - 1)
Fatals == {k \in 1..Len(ops) : ops[k].o = "msg" /\ ops[k].lv = Fatal}
End == IF Fatals = {} THEN Len(ops) ELSE CHOOSE k \in Fatals : \A j \in Fatals : k <= j
Line(k) == Stamp(0) \o B(" 123 ") \o B(LevelName[ops[k].lv + 1]) \o B(" f.c:say:5: ") \o Text(ops[k])
Written == {k \in 1..End : ops[k].o = "msg" /\ ops[k].lv >= LevelAt(k)}
RECURSIVE LinesFrom(_, _)
LinesFrom(k, skip) == IF k > End THEN <<>> ELSE (IF k \in Written \ skip THEN <<Line(k)>> ELSE <<>>) \o LinesFrom(k + 1, skip)
RECURSIVE Reps(_)
Reps(k) == IF k > End THEN <<>> ELSE (CASE ops[k].o = "msg" -> <<5>> [] ops[k].o = "ask" -> <<IF ops[k].n >= LevelAt(k) THEN 1 ELSE 0>> [] OTHER -> <<>>) \o Reps(k + 1)
Judge(skip, more) == Follow(ops, 1, 2, {Stamp(0)}, LinesFrom(1, skip) \o more, Reps(1), B("f.c"), IF Fatals = {} THEN 0 ELSE 1)
Accepts == Judge({}, <<>>) = {}
NoLess == \A k \in Written : Judge({k}, <<>>) # {}
NoMore == ops = <<>> \/ Judge({}, <<Stamp(0) \o B(" 1 INFO f.c:say:5: x")>>) # {}
Emit == Len(ops) < MaxOps \/ PrintT("@@" \o ToJson(ops))
=============================================================================
