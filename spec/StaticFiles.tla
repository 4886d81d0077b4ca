---------------------------- MODULE StaticFiles ----------------------------
(* What a static request returns.  A tree is the set of the regular files in the document root, as a sequence of
   records with the path p ("/dir/name") and the content x.                                                       *)
EXTENDS Bytes

sIndexHtml == B("index.html")
sSlashIndexHtml == B("/index.html")
sFavicon == B("/favicon.ico")

Segments(path) == Filter(Pieces(path, 47), LAMBDA p : p # <<>> /\ p # <<46>>)
DotDot == <<46, 46>>
IsClean(segs) == \A i \in 1..Len(segs) : segs[i] # DotDot

RECURSIVE Resolve(_, _)
(* Segments with ".." removed; fails (<<DotDot>>) when they climb out *)
Resolve(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE IF Head(segs) = DotDot THEN (IF acc = <<>> THEN <<DotDot>> ELSE Resolve(Tail(segs), Upto(acc, Len(acc) - 1)))
  ELSE Resolve(Tail(segs), Append(acc, Head(segs)))

PathOf(segs) == Concat([i \in 1..Len(segs) |-> <<47>> \o segs[i]])
EndsInSlash(p) == p # <<>> /\ p[Len(p)] = 47

FilesAt(tree, path) == {i \in 1..Len(tree) : tree[i].p = path}

(* Paths that the target of a request names, after the documented rewriting *)
Rewrite(path, index, favicon) ==
  IF path = <<47>> \/ path = sSlashIndexHtml THEN index
  ELSE IF path = sFavicon THEN favicon
  ELSE IF EndsInSlash(path) THEN path \o sIndexHtml
  ELSE path

(* The files a path may name: at most one; none for a path that ends in a slash or dot segment, or climbs out.
   A path that contains ".." without climbing out may be looked up or be treated as naming nothing.             *)
Candidates(tree, path) ==
  LET segs == Segments(path)
      r == Resolve(segs, <<>>)
      last == Pieces(path, 47)
      isdir == last[Len(last)] \in {<<>>, <<46>>, DotDot}
      hit == IF r = <<DotDot>> \/ isdir \/ r = <<>> THEN {} ELSE FilesAt(tree, PathOf(r))
  IN IF IsClean(segs) THEN <<hit>> ELSE <<hit, {}>>

(* Set of the indices of the files that may be served, 0 standing for "404" *)
Served(tree, index, favicon, path) ==
  LET want == Candidates(tree, Rewrite(path, index, favicon))
      fall == LET f == FilesAt(tree, PathOf(Segments(index))) IN IF f = {} THEN {0} ELSE f
  IN UNION {IF want[i] = {} THEN fall ELSE want[i] : i \in 1..Len(want)}

LastName(p) == LET ps == Pieces(p, 47) IN ps[Len(ps)]
Extension(p) == LET n == LastName(p)
                    d == Last(1, Len(n), LAMBDA i : n[i] = 46)
                IN IF d = 0 THEN <<>> ELSE From(n, d + 1)

Types == <<
  <<B("html"), B("text/html")>>, <<B("js"), B("text/html")>>, <<B("png"), B("image/png")>>,
  <<B("jpg"), B("image/jpeg")>>, <<B("jpeg"), B("image/jpeg")>>, <<B("zip"), B("application/zip")>>,
  <<B("css"), B("text/css")>>, <<B("svg"), B("image/svg+xml")>>, <<B("ico"), B("image/vnd.microsoft.icon")>>,
  <<B("txt"), B("text/plain")>>, <<B("csv"), B("text/csv")>>, <<B("yaml"), B("text/yaml")>> >>
tHtml == B("text/html")
tOctet == B("application/octet-stream")

(* Content types a file name may be served with *)
TypesOf(p) ==
  LET e == Extension(p)
      i == First(1, Len(Types), LAMBDA k : Types[k][1] = e)
  IN IF e = <<>> THEN (IF HasC(p, 46) THEN {tHtml, tOctet} ELSE {tHtml})
     ELSE IF i = 0 THEN {tOctet} ELSE {Types[i][2]}

(* Content type for a media type named by the embedding program *)
MimeNames == {B("text/html"), B("image/png"), B("image/jpeg"), B("application/zip"), B("text/css"),
              B("text/plain"), B("text/csv"), B("text/yaml")}
TypeOfMime(m) == IF m \in MimeNames THEN m ELSE tOctet
=============================================================================
