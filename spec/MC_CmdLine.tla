------------------------------ MODULE MC_CmdLine ------------------------------
(* Every command line of up to MaxUnits options in every order. Emits them for replay with the real program. *)
EXTENDS CmdLine, Json, TLC
CONSTANTS MaxUnits

U(id, ws) == [id |-> id, ws |-> ws]
r == B("-r")
Units == {U("d", <<B("-d")>>), U("f", <<B("-f")>>), U("h", <<B("-h")>>), U("v", <<B("-v")>>), U("x", <<B("-x")>>),
          U("p1", <<B("-p"), B("99")>>), U("p2", <<B("-p4444")>>), U("b1", <<B("-b"), B("127.1.2.3")>>), U("b2", <<B("-b0.0.0.0")>>),
          U("rA", <<r, B("/A")>>), U("rB", <<B("-r/B")>>), U("rM", <<r, B("/missing")>>), U("rF", <<B("-r/file")>>),
          U("df", <<B("-df")>>), U("frA", <<B("-fr"), B("/A")>>), U("dp", <<B("-dp77")>>), U("word", <<B("word")>>), U("dash", <<B("-")>>),
          U("end", <<B("--")>>), U("rN", <<r>>), U("vf", <<B("-vf")>>)}
Dirs == {B("/A"), B("/B")}
Simple == {"d", "f", "p1", "b2", "rA", "word", "dash"}     \* no two of them touch the same setting

VARIABLE us
Init == us = <<>>
Next == Len(us) < MaxUnits /\ \E u \in Units : us' = Append(us, u)
Spec == Init /\ [][Next]_us

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).ws \o Flat(Tail(s))
as == Flat(us)
st == Run(as, Dirs)
Ids(s) == {s[i].id : i \in 1..Len(s)}
Clean(s) == {"rN", "end"} \cap Ids(s) = {}
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* orders that cannot matter do not matter
OrderFree == Ids(us) \subseteq Simple => Run(Flat(Reverse(us)), Dirs) = st
\* with every option complete, the program serves unless one of them ends it, and the last setting counts
ServesUnlessEnded == Clean(us) => (Serves(st) <=> Ids(us) \cap {"h", "v", "x", "rM", "rF", "vf"} = {})
LastRootCounts == (Clean(us) /\ us # <<>> /\ us[Len(us)].id \in {"rA", "frA"}) => st.root = B("/A")
NoRootGiven == (Clean(us) /\ Ids(us) \cap {"rA", "rB", "frA", "rM", "rF"} = {}) => st.root = Start.root
PlainOnlyWhenAsked == Clean(us) => (~st.ssl <=> Ids(us) \cap {"f", "df", "frA", "vf"} # {})
DebugOnlyWhenAsked == Clean(us) => (st.debug <=> Ids(us) \cap {"d", "df", "dp"} # {})
PortIsLast == Clean(us) => st.port \in {4443, 99, 4444, 77}
EndedFirst == st.ends # <<>> => st.ends[1] \in Ends(st)
Missing == (us # <<>> /\ us[Len(us)].id = "rN" /\ Clean(Upto(us, Len(us) - 1))) => st.lacks
Emit == PrintT("@@" \o ToJson(as))
=============================================================================
