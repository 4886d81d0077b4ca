------------------------------- MODULE Router -------------------------------
(* Which route handles an API request, and what the route adds to the form.
   A route template is METHOD:/path, or METHOD:/path/{parameter}, which stands for every longer path. *)
EXTENDS Bytes

HasParam(t) == HasC(t, 123)
Prefix(t) == IF HasParam(t) THEN Upto(t, FindC(t, 123, 1) - 1) ELSE t
Param(t) == SubSeq(t, FindC(t, 123, 1) + 1, Len(t) - 1)

Target(method, path) == method \o <<58>> \o path
Matches(t, target) == IF HasParam(t) THEN StartsWith(target, Prefix(t)) /\ Len(target) > Len(Prefix(t))
                      ELSE t = target

(* Index of the route that handles the request, 0 when there is none *)
Route(templates, method, path) ==
  First(1, Len(templates), LAMBDA i : Matches(templates[i], Target(method, path)))

(* The form a handler sees, given the form data that came with the request *)
FormWith(t, method, path, form) ==
  IF ~HasParam(t) THEN form
  ELSE LET p == Param(t) \o <<61>> \o From(Target(method, path), Len(Prefix(t)) + 1)
       IN IF form = <<>> THEN p ELSE form \o <<38>> \o p
=============================================================================
