------------------------------ MODULE IpFilter ------------------------------
(* Allow and deny files: one address per line. A file is <<-1>> when it does not exist and <<-2>> when it exists and
   cannot be read (the process is out of descriptors): then nobody can be told to be on it or not, and nobody is allowed. *)
EXTENDS Bytes
NoFile == <<-1>>
Unreadable == <<-2>>
Lists(f, ip) == f # NoFile /\ LET ls == Pieces(f, LF) IN \E i \in 1..Len(ls) : Trim(ls[i]) = ip
Allowed(allow, deny, ip) ==
  /\ deny # Unreadable /\ allow # Unreadable
  /\ ~Lists(deny, ip)
  /\ allow = NoFile \/ Lists(allow, ip)
=============================================================================
