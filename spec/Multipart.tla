----------------------------- MODULE Multipart -----------------------------
(* multipart/form-data: from a body and its boundary to the form a handler sees. *)
EXTENDS Bytes

sFormData == B("form-data; name=\"")
sFileName == B("; filename=\"")
sTmpFile == B("&tmpfile=")
sDisposition == B("Content-Disposition")
MaxFileName == 255
MaxFieldName == 511

Delims(body, b) ==
  LET d == <<45, 45>> \o b
      hits == {i \in 1..(Len(body) - Len(d) + 1) : body[i] = 45 /\ At(body, d, i)}
      RECURSIVE S(_)
      S(from) == LET i == First(from, Len(body), LAMBDA k : k \in hits) IN IF i = 0 THEN <<>> ELSE <<i>> \o S(i + 1)
  IN S(1)

(* The bytes between the end of delimiter k and the start of the next one *)
Between(body, b, ds, k) == SubSeq(body, ds[k] + Len(b) + 2, ds[k + 1] - 1)

PartOf(seg) ==
  LET h == Find(seg, <<13, 10, 13, 10>>, 1)
      head == Upto(seg, h + 1)
      content == SubSeq(seg, h + 4, Len(seg) - 2)
      n == Find(head, sFormData, 1)
      ns == n + Len(sFormData)
      ne == FindC(head, QUOTE, ns)
      isf == At(head, sFileName, ne + 1)
      fs == ne + 1 + Len(sFileName)
      fe == FindC(head, QUOTE, fs)
      line == FindC(head, LF, ns)
  IN IF ~StartsWith(seg, CRLF) \/ ~EndsWith(seg, CRLF) \/ h = 0 \/ Len(seg) < h + 5 \/ n = 0 \/ ne = 0 \/ ne > line
        \/ Find(head, sFormData, ns) # 0
        \/ (~isf /\ Find(head, sFileName, 1) # 0) \/ HasC(head, NUL)
        \/ ~CrLfLines(head) \/ ne - ns > MaxFieldName
     THEN [ok |-> FALSE]
     ELSE IF isf /\ (fe = 0 \/ fe > line \/ fe - fs > MaxFileName) THEN [ok |-> FALSE]
     ELSE [ok |-> isf \/ ~HasC(content, NUL), file |-> isf, name |-> SubSeq(head, ns, ne - 1),
           fname |-> IF isf THEN SubSeq(head, fs, fe - 1) ELSE <<>>, content |-> content]

(* The parts of a body; ok is FALSE when it is not a well formed multipart body *)
PartsOf(body, b) ==
  LET ds == Delims(body, b)
      parts == [k \in 1..(Len(ds) - 1) |-> PartOf(Between(body, b, ds, k))]
      fin == From(body, ds[Len(ds)] + Len(b) + 2)
  IN IF Len(ds) < 1 \/ ds[1] # 1 THEN [ok |-> FALSE]
     ELSE IF fin \notin {<<45, 45>>, <<45, 45, 13, 10>>} THEN [ok |-> FALSE]
     ELSE IF \E k \in 1..Len(parts) : ~parts[k].ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, parts |-> parts]

(* got, from position i on, is the form of these parts; stored gives the content of the stored uploads by name *)
RECURSIVE FormAt(_, _, _, _, _)
FormAt(parts, k, got, i, stored) ==
  IF k > Len(parts) THEN i
  ELSE LET sep == IF k = 1 THEN <<>> ELSE <<38>>
           p == parts[k]
           lit == sep \o p.name \o <<61>> \o (IF p.file THEN p.fname \o sTmpFile ELSE p.content)
           j == i + Len(lit)
           e == First(j, Len(got), LAMBDA x : got[x] = 38)
           name == SubSeq(got, j, IF e = 0 THEN Len(got) ELSE e - 1)
       IN IF ~At(got, lit, i) THEN 0
          ELSE IF ~p.file THEN FormAt(parts, k + 1, got, j, stored)
          ELSE IF ~\E u \in stored : u.n = name /\ u.x = p.content THEN 0
          ELSE FormAt(parts, k + 1, got, j + Len(name), stored)

(* The form is the parts' form, followed by what the route added *)
IsForm(parts, got, stored, extra) ==
  LET e == FormAt(parts, 1, got, 1, stored)
      sep == IF e = 1 \/ extra = <<>> THEN <<>> ELSE <<38>>
  IN e # 0 /\ From(got, e) = sep \o extra
=============================================================================
