------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* Documents in other schema languages (JSON Schema, OpenAPI) that are     *)
(* derived from a schema: which data they allow.  Other than Thema, they   *)
(* know defaults only as a hint, so a field that has one is required; and  *)
(* they do not rule out fields that are not mentioned.                     *)
(***************************************************************************)
EXTENDS Values

RECURSIVE HasKind(_, _)
\* Some part of T is of kind k (or a disjunction of kinds).
HasKind(T, k) ==
  T.k = k \/ (k = "kinds" /\ T.k = "b" /\ T.n \in DisjBases) \/ CASE T.k = "df" -> HasKind(T.t, k)
               [] T.k = "st" -> \E x \in DOMAIN T.f : HasKind(T.f[x].t, k)
               [] T.k \in { "ol", "mp" } -> HasKind(T.e, k)
               [] T.k = "cl" -> \E i \in DOMAIN T.es : HasKind(T.es[i], k)
               [] T.k = "u" -> \E i \in DOMAIN T.alts : HasKind(T.alts[i], k)
               [] OTHER -> FALSE

\* The answer for a basic type.
AtomAllowed(n, d) ==
  CASE n = "any" -> IF d = [a |-> "null"] THEN "?" ELSE "y"
    [] ~IsAtom(d) -> "n"
    [] InBase(n, d.a) -> "y"
    [] n \in { "i32", "u32" } /\ IsInt(d.a) -> "?"      \* known as a format only
    [] n = "float" /\ IsInt(d.a) -> "?"                 \* 1 may be 1.0
    [] OTHER -> "n"

RECURSIVE Allowed(_, _)
\* Does the document derived from T allow d: "y", "n", or "?" where the other
\* language cannot say what Thema says.
Allowed(T, d) ==
  CASE T.k = "b"  -> AtomAllowed(T.n, d)
    [] T.k = "e"  -> IF Valid(T, d) THEN "y" ELSE "n"
    [] T.k = "df" -> IF d = T.dv THEN "y" ELSE Allowed(T.t, d)
    [] T.k = "st" ->
         IF ~IsObj(d) \/ \E x \in DOMAIN T.f : T.f[x].p = "r" /\ x \notin DOMAIN d.m THEN "n"
         ELSE And3({ Allowed(T.f[x].t, d.m[x]) : x \in DOMAIN T.f \cap DOMAIN d.m }
                   \cup (IF DOMAIN d.m \subseteq DOMAIN T.f THEN {} ELSE { "?" }))
    [] T.k = "ol" -> IF ~IsArr(d) THEN "n" ELSE And3({ Allowed(T.e, d.l[i]) : i \in DOMAIN d.l })
    [] T.k = "mp" -> IF ~IsObj(d) THEN "n" ELSE And3({ Allowed(T.e, d.m[x]) : x \in DOMAIN d.m })
    [] T.k = "cl" -> IF ~IsArr(d) THEN "n" ELSE "?"
    [] T.k = "u"  -> LET ans == [i \in DOMAIN T.alts |-> Allowed(T.alts[i], d)] IN
                     IF \A i \in DOMAIN ans : ans[i] = "n" THEN "n"
                     ELSE IF Valid(T, d) /\ Cardinality({ i \in DOMAIN ans : ans[i] # "n" }) = 1 THEN And3({ ans[i] : i \in DOMAIN ans } \ { "n" })
                     ELSE "?"

RECURSIVE At(_, _)
\* The type at a path of field names, or nothing.
At(T, p) ==
  IF p = << >> THEN { T }
  ELSE IF T.k = "st" /\ p[1] \in DOMAIN T.f THEN At(T.f[p[1]].t, Tail(p))
  ELSE IF T.k = "df" THEN At(T.t, p)
  ELSE IF T.k = "mp" THEN At(T.e, Tail(p))
  ELSE {}
=============================================================================
