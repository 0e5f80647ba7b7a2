------------------------------- MODULE TsTypes ------------------------------
(***************************************************************************)
(* TypeScript types generated from a schema: the declarations, the data    *)
(* that may be assigned to them (as an object literal), and the constant   *)
(* with the defaults.                                                      *)
(***************************************************************************)
EXTENDS Derive

\* The names of lineages in title case, by which their types are called.
Title == ("lin" :> "Lin") @@ ("other" :> "Other") @@ ("fooBar" :> "FooBar")

IsNum(a) == Kind(a) \in { "int", "float" }

TsAtom(n, d) ==
  CASE n = "any" -> "y"
    [] ~IsAtom(d) -> "n"
    [] InBase(n, d.a) -> "y"
    [] \E a \in NumAtoms : InBase(n, a) /\ IsNum(d.a) -> "?"       \* number has no ranges
    [] n \in { "rex", "min1" } /\ Kind(d.a) = "str" -> "?"
    [] OTHER -> "n"

RECURSIVE TsAllowed(_, _, _)
\* May d be assigned to the type generated for T: "y", "n" or "?".  Within a
\* union (in = TRUE) TypeScript does not mind fields of other alternatives.
TsAllowed(T, d, in) ==
  CASE T.k = "b"  -> TsAtom(T.n, d)
    [] T.k = "e"  -> IF Valid(T, d) THEN "y" ELSE "n"
    [] T.k = "df" -> IF d = T.dv /\ ~Valid(T.t, d) THEN "?" ELSE TsAllowed(T.t, d, in)
    [] T.k = "st" ->
         IF ~IsObj(d) THEN "n"
         ELSE IF DOMAIN T.f = {} THEN (IF DOMAIN d.m = {} THEN "y" ELSE "?")
         ELSE IF \E x \in DOMAIN T.f : T.f[x].p = "r" /\ x \notin DOMAIN d.m THEN "n"
         ELSE And3({ TsAllowed(T.f[x].t, d.m[x], in) : x \in DOMAIN T.f \cap DOMAIN d.m }
                   \cup (IF DOMAIN d.m \subseteq DOMAIN T.f THEN {} ELSE IF in THEN { "?" } ELSE { "n" }))
    [] T.k = "ol" -> IF ~IsArr(d) THEN "n" ELSE And3({ TsAllowed(T.e, d.l[i], in) : i \in DOMAIN d.l })
    [] T.k = "mp" -> IF ~IsObj(d) THEN "n" ELSE And3({ TsAllowed(T.e, d.m[x], in) : x \in DOMAIN d.m })
    [] T.k = "cl" -> IF ~IsArr(d) \/ Len(d.l) # Len(T.es) THEN "n"
                     ELSE And3({ TsAllowed(T.es[i], d.l[i], in) : i \in DOMAIN T.es })
    [] T.k = "u"  -> LET ans == { TsAllowed(T.alts[i], d, TRUE) : i \in DOMAIN T.alts } IN
                     IF "y" \in ans THEN "y" ELSE IF "?" \in ans THEN "?" ELSE "n"

\* Fields of a struct type that have a default of their own.
Defaulted(T) == { x \in DOMAIN T.f : T.f[x].t.k \in { "df", "ol" } }
TsDefaults(T) == [m |-> [x \in Defaulted(T) |-> IF T.f[x].t.k = "ol" THEN [l |-> <<>>] ELSE T.f[x].t.dv]]

\* Schemas for which types can be generated: TypeScript knows no bounds on strings.
RECURSIVE HasBase(_, _)
HasBase(T, n) ==
  CASE T.k = "b" -> T.n = n
    [] T.k = "df" -> HasBase(T.t, n)
    [] T.k = "st" -> \E x \in DOMAIN T.f : HasBase(T.f[x].t, n)
    [] T.k \in { "ol", "mp" } -> HasBase(T.e, n)
    [] T.k = "cl" -> \E i \in DOMAIN T.es : HasBase(T.es[i], n)
    [] T.k = "u" -> \E i \in DOMAIN T.alts : HasBase(T.alts[i], n)
    [] OTHER -> FALSE
TsGenerable(T) == ~HasBase(T, "min1") /\ \A x \in DOMAIN T.f : T.f[x].t.k # "cl"

\* The declarations expected for a schema of type T, some of whose fields
\* (marked) have attributes that ask for an interface of their own.
Decl(kind, n, T) == { kind \o " " \o n } \cup (IF kind = "interface" /\ Defaulted(T) # {} THEN { "const default" \o n } ELSE {})
TsDecls(T, marked, root, alias, group) ==
  UNION { Decl("interface", x, T.f[x].t) : x \in marked } \cup (IF group THEN {} ELSE Decl(IF alias THEN "type" ELSE "interface", root, T))
=============================================================================
