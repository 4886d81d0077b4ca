------------------------------ MODULE TraceCli ------------------------------
(* Checks recorded runs of the stand-alone program against CmdLine and, for what it then serves, Exchange.
     k = "cli"  a start: the arguments, the folders there are, what the program did
     k = "cx"   an exchange with the program of the last start, e.via says with or without TLS
     k = "end"  what the program's log has in the end                                                       *)
EXTENDS CmdLine, Exchange, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cf, st, on

NoCfg == [k |-> "none"]
Init == l = 1 /\ cf = NoCfg /\ st = Start /\ on = FALSE

Report(e, mm) == IF mm = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> e.id, mm |-> mm]))
As21(mm) == {<<"C21", m[2]>> : m \in mm}
C(b, what) == When(b, "C21", what)

Options == {B("-d"), B("-b"), B("-p"), B("-r"), B("-f"), B("-v")}
Facts == {B("127.0.0.1"), B("4443"), B("/etc/wayuu")}
EndedAs(e, w) ==
  CASE w = "version" -> e.code = 0 /\ e.out = e.version \o <<LF>>
    [] w = "usage" -> e.code = 0 /\ \A o \in Options \cup Facts : Contains(e.out, o)
    [] OTHER -> e.code # 0
Failed(e) == e.serving = 0 /\ e.code # 0
Cfg(e, root) == {i \in 1..Len(e.roots) : e.roots[i].p = root}
NoCert(e, s) == s.ssl /\ \A i \in Cfg(e, s.root) : e.roots[i].cert = 0
Started(e, s) ==
  IF e.bindfail = 1 \/ NoCert(e, s) THEN C(~Failed(e), "serves, or claims success, though it cannot")
  ELSE C(e.serving = 0, "does not serve")
       \cup C(e.serving = 1 /\ IsAddr(s.bind) /\ e.ip # s.bind, "bound to another address")
       \cup C(e.serving = 1 /\ s.port # Unspecified /\ e.port # s.port, "bound to another port")
Cli(e, s) ==
  IF e.dead = 1 THEN WhenAll(TRUE, {"C21", "C16"}, "the program crashed")
  ELSE IF ~Serves(s) THEN
    C(e.serving = 1, "serves though an option ends the program")
    \cup C(e.serving = 0 /\ ~\E w \in Ends(s) : EndedAs(e, w), "ends in another way than the option says")
  ELSE IF s.lacks \/ ~IsAddr(s.bind) \/ s.port = Unspecified THEN (IF Failed(e) THEN {} ELSE Started(e, s))
  ELSE Started(e, s)

Exch(e) ==
  IF st.ssl THEN
    IF e.via = "tls" THEN As21(Judge(cf, e, {})) ELSE As21(HandshakeOk(cf, e))
  ELSE
    IF e.via = "plain" THEN As21(Judge(cf, e, {})) ELSE C(e.hs = 1, "TLS though plain HTTP was asked for")

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.k = "cli" -> LET s == Run(e.args, Range(e.dirs))
                             i == Cfg(e, s.root)
                         IN /\ Report(e, Cli(e, s))
                            /\ st' = s
                            /\ on' = (e.serving = 1 /\ Cli(e, s) = {} /\ i # {})
                            /\ cf' = IF i = {} THEN NoCfg ELSE e.roots[CHOOSE x \in i : TRUE]
       [] e.k = "cx" -> UNCHANGED <<cf, st, on>> /\ IF on THEN Report(e, Exch(e)) ELSE TRUE
       [] e.k = "end" -> /\ UNCHANGED <<cf, st, on>>
                         /\ IF on THEN Report(e, C(st.debug /\ ~Contains(e.log, B(" DEBUG ")), "no debug messages though asked for")
                                                 \cup C(~st.debug /\ Contains(e.log, B(" DEBUG ")), "debug messages though not asked for"))
                            ELSE TRUE
Next == Step
Spec == Init /\ [][Next]_<<l, cf, st, on>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
