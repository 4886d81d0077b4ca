----------------------------- MODULE MC_Target -----------------------------
(* Every target made of path pieces, for one tree: what may be served stays inside, and the spelling of a path does
   not change what it names. Emits the targets for replay.                                                       *)
EXTENDS StaticFiles, Json

CONSTANTS Depth, Rich

Tree == << [p |-> B("/index.html"), x |-> <<1>>], [p |-> B("/a"), x |-> <<2>>], [p |-> B("/d/index.html"), x |-> <<3>>],
           [p |-> B("/d/a"), x |-> <<4>>], [p |-> B("/d/e/x.txt"), x |-> <<5>>], [p |-> B("/..a"), x |-> <<6>>],
           [p |-> B("/favicon.ico"), x |-> <<7>>], [p |-> B("/d/..."), x |-> <<8>>] >>
Index == B("/index.html")
Icon == B("/favicon.ico")
Alphabet == {B(".."), B("."), <<>>, B("a"), B("d"), B("e")}
            \cup (IF Rich THEN {B("index.html"), B("..."), B("..a"), B("x.txt")} ELSE {})

VARIABLE segs
Init == segs = <<>>
Next == Len(segs) < Depth /\ \E p \in Alphabet : segs' = Append(segs, p)
Spec == Init /\ [][Next]_segs

Path == PathOf(segs)
Climbs(p) == Resolve(Segments(p), <<>>) = <<DotDot>>
Fallback == FilesAt(Tree, Index)

OnlyFiles == segs = <<>> \/ Served(Tree, Index, Icon, Path) \subseteq 1..Len(Tree)
ClimbingIsMissing == segs = <<>> \/ (Climbs(Path) => Served(Tree, Index, Icon, Path) = Fallback)
SpellingIrrelevant ==
  segs = <<>> \/ Path \in {<<47>>, Index, Icon}
  \/ /\ Served(Tree, Index, Icon, <<47>> \o Path) = Served(Tree, Index, Icon, Path)
     /\ (Path[Len(Path)] # 47 => Served(Tree, Index, Icon, B("/.") \o Path) = Served(Tree, Index, Icon, Path))
DirectName == \A i \in 1..Len(Tree) : Path = Tree[i].p => Served(Tree, Index, Icon, Path) = {i}

Emit == segs = <<>> \/ PrintT("@@" \o ToJson(Path))
=============================================================================
