------------------------------- MODULE GoTypes -------------------------------
(***************************************************************************)
(* Go types, and which of them all instances of a schema can be assigned   *)
(* to without loss.  A Go type is one of                                   *)
(*   [g |-> name]                           a basic type, any, or big (Int)*)
(*   [g |-> "struct", f |-> [name -> [t |-> type, oe |-> omitempty]]]      *)
(*   [g |-> "slice", e |-> type]            [g |-> "array", n, e |-> type] *)
(*   [g |-> "map", e |-> type]              [g |-> "ptr", e |-> type]      *)
(***************************************************************************)
EXTENDS Values

GoSigned   == { "int", "int8", "int16", "int32", "int64" }
GoUnsigned == { "uint", "uint8", "uint16", "uint32", "uint64" }
GoInts     == GoSigned \cup GoUnsigned

\* The bounded integer types of schemas that fit into a Go type.
FitsInGo ==
  [ int8 |-> { "i8" }, int16 |-> { "i8", "i16", "u8" }, int32 |-> { "i8", "i16", "i32", "u8", "u16" },
    int64 |-> { "i8", "i16", "i32", "u8", "u16", "u32" }, int |-> { "i8", "i16", "i32", "u8", "u16", "u32" },
    uint8 |-> { "u8" }, uint16 |-> { "u8", "u16" }, uint32 |-> { "u8", "u16", "u32" },
    uint64 |-> { "u8", "u16", "u32" }, uint |-> { "u8", "u16", "u32" } ]

IntInGo(g, a) ==
  CASE g = "int8" -> InBase("i8", a) [] g = "int16" -> InBase("i16", a) [] g = "int32" -> InBase("i32", a)
    [] g = "uint8" -> InBase("u8", a) [] g = "uint16" -> InBase("u16", a) [] g = "uint32" -> InBase("u32", a)
    [] g \in { "uint", "uint64" } -> Rank(a) >= Rank("n:0")
    [] OTHER -> TRUE

ScalarTo(T, g) ==
  CASE T.k = "b" ->
         (CASE T.n \in { "str", "rex", "min1" } -> IF g = "string" THEN "y" ELSE "n"
            [] T.n = "bool" -> IF g = "bool" THEN "y" ELSE "n"
            [] T.n \in { "int", "lt10", "pos" } -> IF g = "big" THEN "?" ELSE "n"
            [] T.n \in { "u8", "u16", "u32", "i8", "i16", "i32" } ->
                 IF g \in GoInts THEN (IF T.n \in FitsInGo[g] THEN "y" ELSE "n") ELSE IF g = "big" THEN "?" ELSE "n"
            [] T.n \in { "num", "float" } -> IF g \in { "float64", "float32" } THEN "?" ELSE "n"
            [] T.n = "ns" -> "?"
            [] OTHER -> "n")
    [] T.k = "e" ->
         LET ks == { Kind(T.s[i]) : i \in DOMAIN T.s } IN
         (CASE ks = { "str" } -> IF g = "string" THEN "y" ELSE "n"
            [] ks = { "bool" } -> IF g = "bool" THEN "y" ELSE "n"
            [] ks = { "int" } -> IF g \in GoInts THEN (IF \A i \in DOMAIN T.s : IntInGo(g, T.s[i]) THEN "y" ELSE "n")
                                 ELSE IF g = "big" THEN "?" ELSE "n"
            [] ks \subseteq { "int", "float" } -> IF g \in { "float64", "float32" } THEN "?" ELSE "n"
            [] "null" \in ks -> "?"
            [] OTHER -> "n")

RECURSIVE Assignable(_, _)
\* "y", "n", or "?" where the documentation does not say.
Assignable(T, G) ==
  IF G.g = "any" THEN "y"
  ELSE IF G.g = "ptr" THEN (IF G.e.g \in { "ptr", "any" } THEN "?" ELSE Assignable(T, G.e))
  ELSE CASE T.k \in { "b", "e" } -> ScalarTo(T, G.g)
         [] T.k = "df" -> IF Assignable(T.t, G) = "n" THEN "n"
                          ELSE IF T.t.k \in { "b", "e" } /\ "a" \in DOMAIN T.dv /\ ScalarTo([k |-> "e", s |-> << T.dv.a >>], G.g) # "y" THEN "?"
                          ELSE Assignable(T.t, G)
         [] T.k = "st" ->
              IF G.g = "map" THEN "?"
              ELSE IF G.g # "struct" \/ DOMAIN G.f # DOMAIN T.f THEN "n"
              ELSE And3({ Assignable(T.f[x].t, G.f[x].t) : x \in DOMAIN T.f })
         [] T.k = "ol" -> IF G.g # "slice" THEN "n"
                          ELSE IF G.e.g = "uint8" /\ Assignable(T.e, G.e) = "y" THEN "?"    \* Go takes it for bytes
                          ELSE Assignable(T.e, G.e)
         [] T.k = "cl" -> IF G.g # "array" \/ G.n # Len(T.es) THEN "n"
                          ELSE IF Len(T.es) = 0 THEN "?"
                          ELSE IF \A i, j \in DOMAIN T.es : T.es[i] = T.es[j]
                               THEN (IF Steady(T.es[1]) /\ G.e.g # "uint8" THEN Assignable(T.es[1], G.e)
                                     ELSE IF Assignable(T.es[1], G.e) = "n" THEN "n" ELSE "?")
                          ELSE IF \E i \in DOMAIN T.es : Assignable(T.es[i], G.e) = "n" THEN "n" ELSE "?"
         [] T.k = "mp" -> IF G.g = "map" THEN "?" ELSE IF G.g = "struct" /\ DOMAIN G.f = {} THEN "?" ELSE "n"
         [] T.k = "u"  -> "n"

\* A schema as a whole needs a struct, or a pointer to one.
AssignableTo(T, G) ==
  LET H == IF G.g = "ptr" THEN G.e ELSE G IN
  IF H.g # "struct" THEN "n" ELSE Assignable(T, H)
---------------------------------------------------------------------------
(* Go values, as the JSON that they are encoded as *)

\* A field that omitempty leaves out.
Empty(G, y) ==
  CASE G.g = "ptr" -> FALSE
    [] G.g = "any" -> y = [a |-> "null"]
    [] G.g = "string" -> y = [a |-> "s:"]
    [] G.g = "bool" -> y = [a |-> "b:false"]
    [] G.g \in GoInts -> y = [a |-> "n:0"]
    [] G.g \in { "slice", "array" } -> y.l = << >>
    [] OTHER -> FALSE

RECURSIVE GoView(_, _)
\* What a Go value of type G holds when it holds the data y.
GoView(G, y) ==
  CASE G.g = "ptr" -> GoView(G.e, y)
    [] G.g = "struct" -> [m |-> [x \in { z \in DOMAIN y.m : ~(G.f[z].oe /\ Empty(G.f[z].t, y.m[z])) } |-> GoView(G.f[x].t, y.m[x])]]
    [] G.g \in { "slice", "array" } -> [l |-> [i \in DOMAIN y.l |-> GoView(G.e, y.l[i])]]
    [] OTHER -> y

Bottom(T) == IF T.k = "df" THEN T.t ELSE T

RECURSIVE NewOK(_, _, _)
\* A new value has the defaults of the schema, and zero values for the rest.
NewOK(T, G, o) ==
  CASE G.g = "any" -> Complete(T) => o = Completion(T)
    [] G.g = "struct" ->
         /\ IsObj(o)
         /\ IF T.k = "df" THEN o = GoView(G, Hydrate(T, T.dv))
            ELSE /\ DOMAIN o.m \subseteq DOMAIN T.f
                 /\ \A x \in DOMAIN T.f :
                      LET must == T.f[x].p = "r"
                          fld  == G.f[x] IN
                      CASE must /\ x \in DOMAIN o.m -> NewOK(T.f[x].t, fld.t, o.m[x])
                        [] must -> fld.oe /\ (Complete(T.f[x].t) => Empty(fld.t, Completion(T.f[x].t)))
                        [] x \in DOMAIN o.m -> ~fld.oe      \* a zero value that is always written
                        [] OTHER -> fld.oe \/ fld.t.g \in { "ptr", "any", "slice", "map" }
    [] Complete(T) -> o = GoView(G, Hydrate(T, Completion(T)))
    [] G.g = "string" -> o = [a |-> "s:"]
    [] G.g = "bool" -> o = [a |-> "b:false"]
    [] G.g \in GoInts -> o = [a |-> "n:0"]
    [] G.g = "array" -> IsArr(o) /\ Len(o.l) = G.n
    [] OTHER -> TRUE
---------------------------------------------------------------------------
(* Go types that are generated from a schema.  Types with constants also    *)
(* have  cs |-> <<atoms>>.                                                  *)

HoldsInts(n, g) == g \in GoInts /\ \A a \in NumAtoms : InBase(n, a) => IntInGo(g, a)

\* Constants from which the generator can make names and literals.
Words == { "s:a", "s:b", "s:c", "s:x", "s:y", "s:xy", "s:hello", "s:two words", "s:null", "s:true", "s:1" }
Worded(a) == a \in Words \/ a \in { "n:0", "n:1", "n:2", "n:3", "n:7", "n:9", "n:10", "n:127", "n:255" }

RECURSIVE Generable(_)
\* What the generator handles: named constants, no records or constants in maps,
\* no lists of a given length.
Generable(T) ==
  CASE T.k = "df" -> Generable(T.t)
    [] T.k = "e" -> \A i \in DOMAIN T.s : Worded(T.s[i])
    [] T.k = "st" -> \A x \in DOMAIN T.f : x # "-" /\ Generable(T.f[x].t)
    [] T.k = "ol" -> Generable(T.e)
    [] T.k = "mp" -> T.e.k = "b"
    [] T.k = "u" -> \A i \in DOMAIN T.alts : Generable(T.alts[i])
    [] T.k = "cl" -> FALSE
    [] OTHER -> TRUE

\* Alternatives of several kinds, which have no Go type of their own.
OrNull(T) == T.k = "u" /\ Len(T.alts) = 2 /\ T.alts[1] = [k |-> "b", n |-> "null"]
Mixed(T) == LET U == IF T.k = "df" THEN T.t ELSE T IN (U.k = "u" /\ ~OrNull(U)) \/ (U.k = "b" /\ U.n \in { "si", "sib" })

RECURSIVE GenOK(_, _, _)
\* The Go type G can hold all instances of T; flat when optional fields are not
\* pointers.
GenOK(T, G, flat) ==
  LET ofEnum(s) == LET ks == { Kind(s[i]) : i \in DOMAIN s } IN
        /\ CASE ks = { "str" } -> G.g = "string"
             [] ks = { "bool" } -> G.g = "bool"
             [] ks = { "int" } -> G.g \in GoInts /\ \A i \in DOMAIN s : IntInGo(G.g, s[i])
             [] ks \subseteq { "int", "float" } -> G.g \in { "float32", "float64" }
             [] OTHER -> FALSE
        /\ "cs" \in DOMAIN G => SeqToSet(G.cs) = SeqToSet(s) IN
  CASE G.g = "ptr" -> ~flat /\ GenOK(T, G.e, flat)
    [] Mixed(T) \/ (T.k = "b" /\ T.n \in { "any", "null" }) -> G.g = "any"
    [] T.k = "df" -> GenOK(T.t, G, flat)
    [] OrNull(T) -> GenOK(T.alts[2], G, flat)
    [] T.k = "b" -> CASE T.n \in { "str", "rex", "min1", "ns" } -> G.g = "string"
                      [] T.n = "bool" -> G.g = "bool"
                      [] T.n \in { "num", "float" } -> G.g \in { "float32", "float64" }
                      [] T.n \in { "int", "u8", "u16", "u32", "i8", "i16", "i32", "lt10", "pos" } -> HoldsInts(T.n, G.g)
                      [] OTHER -> FALSE
    [] T.k = "e" -> ofEnum(T.s)
    [] T.k = "st" ->
         /\ G.g = "struct"
         /\ DOMAIN G.f = DOMAIN T.f
         /\ \A x \in DOMAIN T.f :
              /\ GenOK(T.f[x].t, G.f[x].t, flat)
              /\ T.f[x].p # "o" => ~G.f[x].oe
              /\ T.f[x].p = "o" => G.f[x].oe \/ Fits(T.f[x].t, [a |-> "null"])
              /\ IF T.f[x].p = "o" \/ Fits(T.f[x].t, [a |-> "null"])
                 THEN flat \/ G.f[x].t.g \in { "ptr", "slice", "map", "any" }
                 ELSE G.f[x].t.g # "ptr"
    [] T.k = "ol" -> G.g = "slice" /\ GenOK(T.e, G.e, flat)
    [] T.k = "mp" -> G.g = "map" /\ GenOK(T.e, G.e, flat)
    [] OTHER -> FALSE
=============================================================================
