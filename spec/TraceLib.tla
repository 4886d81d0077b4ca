------------------------------ MODULE TraceLib ------------------------------
(* Checks recorded calls of the helpers, one after the other. The recorded file is a sequence of records:
     k = "call"   a call of helper f with the texts a and the numbers n, and its result r
     k = "fresh"  an empty scratch folder from here on
     k = "log"    a process that logged, and its log
   Every disagreement is printed; the check then goes on with the next record.                           *)
EXTENDS TextHelpers, Json, IOUtils, TLC

JT == INSTANCE JsonText
CF == INSTANCE ConfFile
FS == INSTANCE FileStore
LF_ == INSTANCE LogFile
MD == INSTANCE Md5

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, fs
Init == l = 1 /\ fs = <<>>

Report(e, mm) == IF mm = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> e.id, mm |-> mm]))
When(c, p, t) == IF c THEN {<<p, t>>} ELSE {}

TextFs == {"split", "split_once", "join", "trim", "chop", "rtrim", "startswith", "startswithany", "find", "alnum", "md5"}
JsonFs == {"jstrings", "jnull", "jentities", "jints", "jkv", "jint", "jbool", "juint", "jerror", "jresult"}
ConfFs == {"cparse", "cwrite", "cround", "cline", "cshow", "cnowrite"}
FileFs == {"write", "read", "isfile", "isdir", "mkdir", "infile"}
PropOf(f) == IF f \in TextFs THEN "C26" ELSE IF f \in JsonFs THEN "C18" ELSE IF f \in ConfFs THEN "C17" ELSE IF f \in FileFs THEN "C25" ELSE "C24"

Bool(b) == IF b THEN 1 ELSE 0
TextOk(e) ==
  LET a == e.a
  IN CASE e.f = "split" -> e.r = Split(a[1], a[2][1])
       [] e.f = "split_once" -> e.r = SplitOnce(a[1], a[2])
       [] e.f = "join" -> e.r = Join(e.list, a[1])
       [] e.f = "trim" -> e.r = Trim(a[1])
       [] e.f = "chop" -> e.r = Chop(a[1])
       [] e.f = "rtrim" -> e.r = Before(a[1], e.n[1])
       [] e.f = "startswith" -> e.r = Bool(StartsWithNC(a[1], a[2]))
       [] e.f = "startswithany" -> e.r = Bool(StartsWithAny(a[1], e.list))
       [] e.f = "find" -> e.r = FindAfter(Upto(a[1], e.n[2]), a[2], e.n[1])
       [] e.f = "alnum" -> e.r = Bool(AlNum(a[1]))
       [] e.f = "md5" -> e.r = MD!MD5(a[1])

JsonOk(e) ==
  LET a == e.a
  IN CASE e.f = "jstrings" -> JT!IsDoc(e.r, JT!JArr([i \in 1..Len(e.list) |-> JT!JStr(e.list[i])]))
       [] e.f = "jnull" -> JT!IsDoc(e.r, JT!JArr(<<>>))
       [] e.f = "jentities" -> LET vs == [i \in 1..Len(e.list) |-> JT!Document(e.list[i])]
                               IN JT!IsDoc(e.r, JT!JArr([i \in 1..Len(vs) |-> vs[i].v]))
       [] e.f = "jints" -> JT!IsDoc(e.r, JT!JArr([i \in 1..Len(e.list) |-> JT!JNum(e.list[i])]))
       [] e.f = "jkv" -> JT!IsMember(e.r, a[1], JT!JStr(a[2]))
       [] e.f \in {"jint", "juint"} -> JT!IsMember(e.r, a[1], JT!JNum(a[2]))
       [] e.f = "jbool" -> JT!IsMember(e.r, a[1], JT!JWord(IF e.n[1] = 1 THEN "true" ELSE "false"))
       [] e.f = "jerror" -> JT!IsDoc(e.r, [t |-> "o", v |-> <<<<B("code"), JT!JStr(IF a[1] = <<>> THEN B("UNKNOWN") ELSE a[1])>>,
                                                             <<B("message"), JT!JStr(a[2])>>>>])
       (* the result of a call: how it ended, the texts that are there, and the data, if any *)
       [] e.f = "jresult" -> JT!IsDoc(e.r, [t |-> "o", v |->
            <<<<B("RSP"), JT!JStr(CASE e.n[1] = -1 -> B("FAIL") [] e.n[1] = 0 -> B("OK") [] e.n[1] = 1 -> B("ERROR") [] e.n[1] = 2 -> B("WARNING"))>>>>
            \o (IF a[1] = <<>> THEN <<>> ELSE <<<<B("info"), JT!JStr(a[1])>>>>)
            \o (IF a[2] = <<>> THEN <<>> ELSE <<<<B("description"), JT!JStr(a[2])>>>>)
            \o <<<<B("data"), IF Len(a) < 3 THEN JT!JStr(<<>>) ELSE JT!Document(a[3]).v>>>>])

(* items as they were delivered, against items as they should be *)
SameItems(got, want) ==
  /\ Len(got) = Len(want)
  /\ \A i \in 1..Len(got) :
       /\ got[i].key = want[i].key
       /\ got[i].value = want[i].value
       /\ CF!ElemsDefined(want[i].value) => got[i].multi = want[i].multi /\ got[i].n = Len(want[i].multi)
ConfBad(e) ==
  CASE e.f = "cparse" ->
         IF e.there = 0 THEN When(e.r = 0 \/ e.items # <<>>, "C17", "a missing file was read")
         ELSE IF ~CF!InDomain(e.a[1]) THEN {}
         ELSE LET w == CF!ReadConf(e.a[1], e.flags)
              IN When((e.r = 0) # w.ok, "C17", "success or failure of parsing")
                 \cup When(~SameItems(e.items, w.items), "C17", "items read differ from the file")
    [] e.f = "cround" ->
         IF \E i \in 1..Len(e.wrote) : ~CF!Writable(e.wrote[i]) THEN {}
         ELSE LET w == CF!ReadConf(CF!WriteConf(e.wrote), e.flags)
              IN When(e.r1 # 0, "C17", "writing failed")
                 \cup When(e.r # 0, "C17", "what was written cannot be read")
                 \cup When(~SameItems(e.items, w.items), "C17", "items read differ from the items written")
    [] e.f = "cnowrite" -> When(e.r = 0, "C17", "a file that can't be written was written")
    [] e.f = "cshow" -> When(e.r # CF!ShowConf(e.a[1], e.wrote), "C17", "the text of the items differs from them")
    [] e.f = "cline" ->
         IF ~CF!InDomain(e.a[1]) THEN {}
         ELSE IF ~HasC(e.a[1], CF!EQ) THEN When(e.r = 0, "C17", "a line without '=' was taken")
         ELSE When(~SameItems(e.items, <<CF!Item(e.a[1], e.n[1] = 1)>>), "C17", "the item differs from its line")

FileBad(e) ==
  LET p == e.a[1]
  IN CASE e.f = "read" -> LET x == FS!ReadOf(fs, p, e.n[1])
                          IN When(~(Len(e.r) > Len(x) /\ Upto(e.r, Len(x)) = x /\ e.r[Len(x) + 1] = 0), "C25", "what was read differs from the file")
       [] e.f = "isfile" -> When(e.r # Bool(FS!IsFileAt(fs, p)), "C25", "wrong answer whether it is a file")
       [] e.f = "isdir" -> When(e.r # Bool(FS!IsFolder(fs, p)), "C25", "wrong answer whether it is a folder")
       [] e.f = "mkdir" -> When(e.r # Bool(FS!CanCreate(fs, p)), "C25", "wrong answer whether the folder is there")
       [] e.f = "infile" -> When(~(FS!IsFileAt(fs, p) /\ HasC(fs[p].x, NUL)) /\ e.r # Bool(FS!HasLine(fs, p, e.a[2])), "C25", "wrong answer whether the file has the line")
       [] OTHER -> {}
FsNext(e) == IF e.k # "call" THEN fs
             ELSE IF e.f = "write" THEN FS!AfterWrite(fs, e.a[1], e.a[2])
             ELSE IF e.f = "mkdir" THEN FS!AfterCreate(fs, e.a[1]) ELSE fs
(* what is really there after the call *)
DiskBad(e, s) ==
  LET want == DOMAIN s
      have == {e.disk[i].p : i \in 1..Len(e.disk)}
  IN When(have # want, "C25", "other files or folders than there should be")
     \cup When(\E i \in 1..Len(e.disk) : e.disk[i].p \in want /\ s[e.disk[i].p] # [kind |-> e.disk[i].kind, x |-> e.disk[i].x], "C25", "the content of a file is not what was written")

CallBad(e, s) ==
  IF e.alive = 0 THEN {<<PropOf(e.f), "the call ended the process">>}
  ELSE When(e.esc # 0, PropOf(e.f), "a file outside the scratch folder was to be changed")
       \cup (IF e.f \in TextFs THEN When(~TextOk(e), "C26", e.f \o ": wrong result") \cup When(e.same = 0, "C26", e.f \o " changed its argument")
             ELSE IF e.f \in JsonFs THEN When(~JsonOk(e), "C18", e.f \o ": not the JSON of the values")
             ELSE IF e.f \in ConfFs THEN ConfBad(e)
             ELSE IF e.f \in FileFs THEN FileBad(e) \cup DiskBad(e, s)
             ELSE {})

(* ---- logs *)
LogLines(x) == LET p == Pieces(x, LF) IN Upto(p, Len(p) - 1)
LogBad(e) ==
  IF e.mode = "b" THEN When(e.status <= 0, "C24", "a log file that cannot be opened did not end the process with a failure")
  ELSE IF e.signal # 0 THEN {<<"C24", "logging ended the process abnormally">>}
  ELSE IF ~StartsWith(e.x, e.before) THEN {<<"C24", "earlier content of the log is gone">>}
  ELSE IF e.x # <<>> /\ e.x[Len(e.x)] # LF THEN {<<"C24", "the last line of the log is not whole">>}
  ELSE LET stamps == {LF_!Stamp(t) : t \in e.t0..e.t1}
           bad == LF_!Follow(e.ops, 1, 2, stamps, LogLines(From(e.x, Len(e.before) + 1)), e.rep, e.file, e.status)
       IN {<<"C24", b>> : b \in bad}
StampBad(e) == When(e.r \notin {LF_!CommonStamp(t) : t \in {e.n[1]}}, "C14", "wrong time stamp")

Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.k = "fresh" -> fs' = <<>>
       [] e.k = "call" -> fs' = FsNext(e) /\ Report(e, IF e.f = "stamp" THEN StampBad(e) ELSE CallBad(e, fs'))
       [] e.k = "log" -> UNCHANGED fs /\ Report(e, LogBad(e))
Next == Step
Spec == Init /\ [][Next]_<<l, fs>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
