------------------------------ MODULE LogFile ------------------------------
(* The program log: its time stamps, lines and levels.
   What a program does is a sequence of operations: [o |-> "level", n], [o |-> "ask", n], [o |-> "clock", n],
   [o |-> "msg", lv, fmt, s, d, ds] (ds the digits of d) and [o |-> "par", threads, count, lv].                                        *)
EXTENDS Bytes

LevelName == <<"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL">>
Fatal == 5

Mod(a, n) == a - n * (a \div n)
Two(n) == <<48 + Mod(n \div 10, 10), 48 + Mod(n, 10)>>
(* the date of a day, counted from 1970-01-01 *)
Civil(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
Clock(t) == LET s == Mod(t, 86400) IN Two(s \div 3600) \o <<58>> \o Two(Mod(s \div 60, 60)) \o <<58>> \o Two(Mod(s, 60))
Stamp(t) == LET c == Civil(t \div 86400) IN Two(c.d) \o <<45>> \o Two(c.m) \o <<45>> \o Two(Mod(c.y, 100)) \o <<32>> \o Clock(t)
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
CommonStamp(t) == LET c == Civil(t \div 86400)
                  IN Two(c.d) \o <<47>> \o B(Months[c.m]) \o <<47>> \o Dec(c.y) \o <<58>> \o Clock(t) \o B(" +0000")

(* the formats that the driver uses *)
Text(m) == CASE m.fmt = 0 -> m.s
             [] m.fmt = 1 -> m.ds
             [] m.fmt = 2 -> B("a ") \o m.s \o B(", ") \o m.ds \o <<37>> \o B(" of <") \o m.s \o B(">")
             [] m.fmt = 3 -> B("plain")
             [] m.fmt = 4 -> <<IF m.s = <<>> THEN 46 ELSE m.s[1]>> \o <<124>> \o m.s

Words(s) == Filter(Pieces(s, SP), LAMBDA p : p # <<>>)
(* a line of the log: stamp, thread, level, position, text *)
LineAt(l, stamps, lv) ==
  \E st \in stamps :
    /\ StartsWith(l, st \o <<SP>>)
    /\ LET r == From(l, Len(st) + 2)
           e == FindC(r, SP, 1)
           q == LTrim(From(r, e + 1))
           n == B(LevelName[lv + 1])
       IN /\ e > 1
          /\ AllDigits(Upto(r, e - 1))
          /\ StartsWith(q, n \o <<SP>>)
IsLine(l, stamps, lv, file, line, text) ==
  /\ LineAt(l, stamps, lv)
  /\ LET tail == file \o B(":say:") \o Dec(line) \o B(": ") \o text IN EndsWith(l, <<SP>> \o tail)
(* level and text of a line of several threads; their texts have no colon *)
ParKey(l, stamps) == LET c == Last(1, Len(l), LAMBDA k : l[k] = 58)
                         lvs == {lv \in 0..4 : LineAt(l, stamps, lv)}
                     IN IF lvs = {} THEN <<-1, <<>>>> ELSE <<CHOOSE lv \in lvs : TRUE, From(l, c + 2)>>

ParText(t, m) == B("t") \o Dec(t) \o B(" m") \o Dec(m) \o B(" end")
ParLevel(o, m) == IF o.lv >= 0 THEN o.lv ELSE m - 5 * (m \div 5)
ParMsgs(o, level) == {<<t, m>> \in (0..(o.threads - 1)) \X (0..(o.count - 1)) : ParLevel(o, m) >= level}

(* The log after the operations from k on, at level, when the clock says one of stamps:
   ls the lines that are left, rep what the calls reported. Returns {} or what is wrong.   *)
RECURSIVE Follow(_, _, _, _, _, _, _, _)
Follow(ops, k, level, stamps, ls, rep, file, status) ==
  IF k > Len(ops)
  THEN (IF ls # <<>> THEN {"more in the log than was logged"} ELSE {})
       \cup (IF status # 0 THEN {"the process ended although nothing fatal was logged"} ELSE {})
  ELSE LET o == ops[k]
           next(lv, st, l, r) == Follow(ops, k + 1, lv, st, l, r, file, status)
       IN CASE o.o = "level" -> next(o.n, stamps, ls, rep)
            [] o.o = "clock" -> next(level, {Stamp(o.n)}, ls, rep)
            [] o.o = "ask" -> IF rep = <<>> \/ (rep[1] = 1) # (o.n >= level) THEN {"wrong answer whether a level is enabled"}
                              ELSE next(level, stamps, ls, Tail(rep))
            [] o.o = "msg" ->
                 IF rep = <<>> THEN {"the process ended although nothing fatal was logged"}
                 ELSE IF o.lv < level THEN next(level, stamps, ls, Tail(rep))
                 ELSE IF ls = <<>> \/ ~IsLine(ls[1], stamps, o.lv, file, rep[1], Text(o)) THEN {"a message is not in the log as it should be"}
                 ELSE IF o.lv = Fatal
                      THEN (IF status <= 0 THEN {"a fatal message did not end the process with a failure"} ELSE {})
                           \cup (IF Len(ls) > 1 \/ Len(rep) > 1 THEN {"the process went on after a fatal message"} ELSE {})
                 ELSE next(level, stamps, Tail(ls), Tail(rep))
            [] o.o = "par" ->
                 LET ms == ParMsgs(o, level)
                     n == Cardinality(ms)
                     mine == {ParKey(ls[i], stamps) : i \in 1..n}
                 IN IF Len(ls) < n THEN {"messages of several threads were lost"}
                    ELSE IF \E x \in mine : x[1] = -1 THEN {"messages of several threads are mixed"}
                    ELSE IF mine # {<<ParLevel(o, q[2]), ParText(q[1], q[2])>> : q \in ms}
                         THEN {"messages of several threads were lost"}
                    ELSE next(level, stamps, From(ls, n + 1), rep)
=============================================================================
