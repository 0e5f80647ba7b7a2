------------------------------- MODULE GoSmall -------------------------------
(***************************************************************************)
(* Small Go types, and what they can hold.                                 *)
(***************************************************************************)
EXTENDS GoTypes, Small

G(n)    == [g |-> n]
GSt(f)  == [g |-> "struct", f |-> f]
GF(t)   == [t |-> t, oe |-> FALSE]
GSl(t)  == [g |-> "slice", e |-> t]
GAr(n, t) == [g |-> "array", n |-> n, e |-> t]
GMp(t)  == [g |-> "map", e |-> t]
GPt(t)  == [g |-> "ptr", e |-> t]

\* A Go value of type g can hold the data, and gives it back.
RECURSIVE Holds(_, _)
Holds(g, d) ==
  CASE g.g = "any" -> TRUE
    [] g.g = "ptr" -> d = [a |-> "null"] \/ Holds(g.e, d)
    [] g.g = "string" -> IsAtom(d) /\ Kind(d.a) = "str"
    [] g.g = "bool" -> IsAtom(d) /\ Kind(d.a) = "bool"
    [] g.g \in GoInts -> IsAtom(d) /\ Kind(d.a) = "int" /\ IntInGo(g.g, d.a)
    [] g.g \in { "float64", "float32" } -> IsAtom(d) /\ Kind(d.a) \in { "int", "float" }
    [] g.g = "slice" -> d = [a |-> "null"] \/ (IsArr(d) /\ \A i \in DOMAIN d.l : Holds(g.e, d.l[i]))
    [] g.g = "array" -> IsArr(d) /\ Len(d.l) = g.n /\ \A i \in DOMAIN d.l : Holds(g.e, d.l[i])
    [] g.g = "map" -> d = [a |-> "null"] \/ (IsObj(d) /\ \A x \in DOMAIN d.m : Holds(g.e, d.m[x]))
    [] g.g = "struct" -> IsObj(d) /\ DOMAIN d.m \subseteq DOMAIN g.f /\ \A x \in DOMAIN d.m : Holds(g.f[x].t, d.m[x])
=============================================================================
