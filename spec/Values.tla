------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Abstract values ("data") and schemas ("types") of Thema, and the        *)
(* relations every other module is written in terms of:                    *)
(*                                                                         *)
(*   Valid(T, d)     d is an instance of the (recursively closed) type T   *)
(*   Complete(T)     a required field of type T may be left out of data    *)
(*   Hydrate(T, d)   d with every default of T filled in                   *)
(*   Dehydrate(T, d) d with every default of T taken out                   *)
(*   Compat(o, n)    type n is a backwards compatible successor of o       *)
(*                                                                         *)
(* Data is one of                                                          *)
(*   [a |-> atom]                   a JSON scalar                          *)
(*   [m |-> [name -> data]]         a JSON object                          *)
(*   [l |-> <<data, ...>>]          a JSON array                           *)
(* An atom is a string: "s:" followed by the text of a JSON string, "n:"   *)
(* followed by a numeral, "b:true", "b:false" or "null".                   *)
(*                                                                         *)
(* A type is one of                                                        *)
(*   [k |-> "b",  n |-> name]       a basic type, see InBase               *)
(*   [k |-> "e",  s |-> <<atoms>>]  an enumeration (one atom: a constant)  *)
(*   [k |-> "df", t |-> T, dv |-> d]  T with default value d               *)
(*   [k |-> "st", f |-> [name -> [p |-> "r" | "o", t |-> T]]]  a struct    *)
(*   [k |-> "ol", e |-> T]          an open list                           *)
(*   [k |-> "cl", es |-> <<T, ...>>] a closed list                         *)
(*   [k |-> "mp", e |-> T]          a map from strings                     *)
(*   [k |-> "u",  alts |-> <<T, ...>>]  a union of structs that differ in  *)
(*                                  the constant value of their field "k"  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoData == [none |-> TRUE]

SeqToSet(s) == { s[i] : i \in DOMAIN s }

---------------------------------------------------------------------------
(* Atoms *)

\* All the numerals that occur in models and traces, in ascending order.
NumPool == << "n:-5000000000", "n:-200", "n:-129", "n:-128", "n:-1", "n:-0.5", "n:0", "n:0.5", "n:1", "n:1.5",
              "n:2", "n:3", "n:4", "n:5", "n:7", "n:9", "n:10", "n:11", "n:127", "n:128", "n:255", "n:256", "n:300",
              "n:32767", "n:32768", "n:65535", "n:65536", "n:70000", "n:2147483647",
              "n:2147483648", "n:4294967295", "n:4294967296", "n:5000000000" >>
FloatAtoms == { "n:-0.5", "n:0.5", "n:1.5" }
NumAtoms == SeqToSet(NumPool)

RankMap == [ a \in NumAtoms |-> CHOOSE i \in DOMAIN NumPool : NumPool[i] = a ]
Rank(a) == RankMap[a]
Between(a, lo, hi) == Rank(lo) <= Rank(a) /\ Rank(a) <= Rank(hi)

Kind(a) ==
  IF a = "null" THEN "null"
  ELSE LET p == SubSeq(a, 1, 2) IN
       CASE p = "s:" -> "str"
         [] p = "b:" -> "bool"
         [] p = "n:" -> IF a \in FloatAtoms THEN "float" ELSE "int"
         [] OTHER    -> "?"

IsInt(a) == Kind(a) = "int"

BaseNames == { "any", "str", "bool", "int", "num", "float", "null",
               "u8", "u16", "u32", "i8", "i16", "i32", "lt10", "pos",
               "si", "sib", "ns", "rex", "min1" }

\* The scalars that inhabit each basic type.
InBase(n, a) ==
  CASE n = "any"   -> TRUE
    [] n = "str"   -> Kind(a) = "str"
    [] n = "bool"  -> Kind(a) = "bool"
    [] n = "int"   -> IsInt(a)
    [] n = "num"   -> Kind(a) \in { "int", "float" }
    [] n = "float" -> Kind(a) = "float"
    [] n = "null"  -> a = "null"
    [] n = "u8"    -> IsInt(a) /\ Between(a, "n:0", "n:255")
    [] n = "u16"   -> IsInt(a) /\ Between(a, "n:0", "n:65535")
    [] n = "u32"   -> IsInt(a) /\ Between(a, "n:0", "n:4294967295")
    [] n = "i8"    -> IsInt(a) /\ Between(a, "n:-128", "n:127")
    [] n = "i16"   -> IsInt(a) /\ Between(a, "n:-200", "n:32767")
    [] n = "i32"   -> IsInt(a) /\ Between(a, "n:-200", "n:2147483647")
    [] n = "lt10"  -> IsInt(a) /\ Rank(a) < Rank("n:10")        \* int & <10
    [] n = "pos"   -> IsInt(a) /\ Rank(a) > Rank("n:0")         \* int & >0
    [] n = "si"    -> Kind(a) \in { "str", "int" }              \* string | int
    [] n = "sib"   -> Kind(a) \in { "str", "int", "bool" }      \* string | int | bool
    [] n = "ns"    -> Kind(a) \in { "null", "str" }             \* null | string
    [] n = "rex"   -> Kind(a) = "str" /\ Len(a) > 2 /\ SubSeq(a, 3, 3) = "x"   \* =~"^x"
    [] n = "min1"  -> Kind(a) = "str" /\ Len(a) > 2             \* strings.MinRunes(1)

\* Single-kind basic types, by inclusion; the reflexive-transitive relation.
BaseSub(o, n) ==
  \/ o = n
  \/ n = "any"
  \/ << o, n >> \in { <<"u8","u16">>, <<"u8","u32">>, <<"u8","i16">>, <<"u8","i32">>, <<"u8","int">>, <<"u8","num">>,
                      <<"u16","u32">>, <<"u16","i32">>, <<"u16","int">>, <<"u16","num">>,
                      <<"u32","int">>, <<"u32","num">>,
                      <<"i8","i16">>, <<"i8","i32">>, <<"i8","int">>, <<"i8","num">>,
                      <<"i16","i32">>, <<"i16","int">>, <<"i16","num">>, <<"i32","int">>, <<"i32","num">>,
                      <<"lt10","int">>, <<"lt10","num">>, <<"pos","int">>, <<"pos","num">>,
                      <<"int","num">>, <<"float","num">>, <<"rex","str">>, <<"rex","min1">>, <<"min1","str">>,
                      <<"si","sib">>, <<"str","si">>, <<"int","si">>, <<"str","sib">>, <<"int","sib">>, <<"bool","sib">>,
                      <<"null","ns">>, <<"str","ns">> }
\* Basic types written as a disjunction.
DisjBases == { "si", "sib", "ns" }

---------------------------------------------------------------------------
(* Validity *)

RECURSIVE Complete(_), Completion(_)

\* TRUE iff a required field of type T has a concrete value even when the
\* data leaves it out: it has a default, or only one possible value.
Complete(T) ==
  CASE T.k = "b"  -> T.n = "null"
    [] T.k = "e"  -> Len(T.s) = 1
    [] T.k = "df" -> TRUE
    [] T.k = "st" -> \A x \in DOMAIN T.f : T.f[x].p = "r" => Complete(T.f[x].t)
    [] T.k = "ol" -> TRUE
    [] T.k = "cl" -> \A i \in DOMAIN T.es : Complete(T.es[i])
    [] T.k = "mp" -> TRUE
    [] T.k = "u"  -> Len(T.alts) = 1 /\ Complete(T.alts[1])

\* That value.
Completion(T) ==
  CASE T.k = "b"  -> [a |-> "null"]
    [] T.k = "e"  -> [a |-> T.s[1]]
    [] T.k = "df" -> T.dv
    [] T.k = "st" -> [m |-> [x \in { y \in DOMAIN T.f : T.f[y].p = "r" } |-> Completion(T.f[x].t)]]
    [] T.k = "ol" -> [l |-> <<>>]
    [] T.k = "cl" -> [l |-> [i \in DOMAIN T.es |-> Completion(T.es[i])]]
    [] T.k = "mp" -> [m |-> <<>>]
    [] T.k = "u"  -> Completion(T.alts[1])

IsAtom(d) == "a" \in DOMAIN d
IsObj(d)  == "m" \in DOMAIN d
IsArr(d)  == "l" \in DOMAIN d

RECURSIVE Valid(_, _), Fits(_, _)

\* Nothing in d contradicts T, though something may be missing.
Fits(T, d) ==
  CASE T.k = "b"  -> IF T.n = "any" THEN TRUE ELSE IsAtom(d) /\ InBase(T.n, d.a)
    [] T.k = "e"  -> IsAtom(d) /\ \E i \in DOMAIN T.s : T.s[i] = d.a
    [] T.k = "df" -> Fits(T.t, d) \/ d = T.dv
    [] T.k = "st" -> /\ IsObj(d)
                     /\ \A x \in DOMAIN d.m : x \in DOMAIN T.f /\ Fits(T.f[x].t, d.m[x])
    [] T.k = "ol" -> IsArr(d) /\ \A i \in DOMAIN d.l : Fits(T.e, d.l[i])
    [] T.k = "cl" -> /\ IsArr(d)
                     /\ Len(d.l) = Len(T.es)
                     /\ \A i \in DOMAIN d.l : Fits(T.es[i], d.l[i])
    [] T.k = "mp" -> IsObj(d) /\ \A x \in DOMAIN d.m : Fits(T.e, d.m[x])
    [] T.k = "u"  -> \E i \in DOMAIN T.alts : Fits(T.alts[i], d)

Valid(T, d) ==
  CASE T.k = "b"  -> IF T.n = "any" THEN TRUE ELSE IsAtom(d) /\ InBase(T.n, d.a)
    [] T.k = "e"  -> IsAtom(d) /\ \E i \in DOMAIN T.s : T.s[i] = d.a
    [] T.k = "df" -> Valid(T.t, d) \/ d = T.dv
    [] T.k = "st" -> /\ IsObj(d)
                     /\ \A x \in DOMAIN d.m : x \in DOMAIN T.f
                     /\ \A x \in DOMAIN T.f :
                          IF x \in DOMAIN d.m THEN Valid(T.f[x].t, d.m[x])
                          ELSE T.f[x].p = "r" => Complete(T.f[x].t)
    [] T.k = "ol" -> IsArr(d) /\ \A i \in DOMAIN d.l : Valid(T.e, d.l[i])
    [] T.k = "cl" -> /\ IsArr(d)
                     /\ Len(d.l) = Len(T.es)
                     /\ \A i \in DOMAIN d.l : Valid(T.es[i], d.l[i])
    [] T.k = "mp" -> IsObj(d) /\ \A x \in DOMAIN d.m : Valid(T.e, d.m[x])
    [] T.k = "u"  -> \* it must be clear which of the alternatives is meant
                     LET S == { i \in DOMAIN T.alts : Fits(T.alts[i], d) } IN
                     Cardinality(S) = 1 /\ \A i \in S : Valid(T.alts[i], d)

\* The alternative of a union that d belongs to.
AltOf(T, d) == T.alts[CHOOSE i \in DOMAIN T.alts : Fits(T.alts[i], d)]

---------------------------------------------------------------------------
(* Where data deviates from a type: the set of paths at which a required   *)
(* field is missing, a field is not allowed, or a value does not fit.      *)

RECURSIVE Faults(_, _)
Prefix(x, S) == { << x >> \o p : p \in S }

RECURSIVE MissingIn(_)
\* The paths of the missing values when nothing was given for type T.
MissingIn(T) ==
  IF Complete(T) THEN {}
  ELSE CASE T.k = "st" -> UNION { Prefix(x, MissingIn(T.f[x].t)) : x \in { y \in DOMAIN T.f : T.f[y].p = "r" } }
         [] T.k = "cl" -> UNION { Prefix(ToString(i - 1), MissingIn(T.es[i])) : i \in DOMAIN T.es }
         [] OTHER -> { << >> }

Faults(T, d) ==
  IF Valid(T, d) THEN {}
  ELSE CASE T.k = "st" ->
              IF ~IsObj(d) THEN { <<>> }
              ELSE { << x >> : x \in DOMAIN d.m \ DOMAIN T.f }
                   \cup UNION { Prefix(x, Faults(T.f[x].t, d.m[x])) : x \in DOMAIN d.m \cap DOMAIN T.f }
                   \cup UNION { Prefix(x, MissingIn(T.f[x].t)) :
                                  x \in { y \in DOMAIN T.f \ DOMAIN d.m : T.f[y].p = "r" } }
         [] T.k = "ol" -> IF ~IsArr(d) THEN { <<>> }
                          ELSE UNION { Prefix(ToString(i - 1), Faults(T.e, d.l[i])) : i \in DOMAIN d.l }
         [] T.k = "cl" -> IF ~IsArr(d) \/ Len(d.l) # Len(T.es) THEN { <<>> }
                          ELSE UNION { Prefix(ToString(i - 1), Faults(T.es[i], d.l[i])) : i \in DOMAIN d.l }
         [] T.k = "mp" -> IF ~IsObj(d) THEN { <<>> }
                          ELSE UNION { Prefix(x, Faults(T.e, d.m[x])) : x \in DOMAIN d.m }
         [] T.k = "df" -> IF T.t.k \in { "st", "ol", "mp", "cl" } THEN Faults(T.t, d) ELSE { <<>> }
         [] OTHER -> { <<>> }

RECURSIVE Wrong(_, _)
\* The faults that are not a missing value: what is there is not allowed.
Wrong(T, d) ==
  IF Fits(T, d) THEN {}
  ELSE CASE T.k = "st" ->
              IF ~IsObj(d) THEN { <<>> }
              ELSE { << x >> : x \in DOMAIN d.m \ DOMAIN T.f }
                   \cup UNION { Prefix(x, Wrong(T.f[x].t, d.m[x])) : x \in DOMAIN d.m \cap DOMAIN T.f }
         [] T.k = "ol" -> IF ~IsArr(d) THEN { <<>> }
                          ELSE UNION { Prefix(ToString(i - 1), Wrong(T.e, d.l[i])) : i \in DOMAIN d.l }
         [] T.k = "cl" -> IF ~IsArr(d) \/ Len(d.l) # Len(T.es) THEN { <<>> }
                          ELSE UNION { Prefix(ToString(i - 1), Wrong(T.es[i], d.l[i])) : i \in DOMAIN d.l }
         [] T.k = "mp" -> IF ~IsObj(d) THEN { <<>> }
                          ELSE UNION { Prefix(x, Wrong(T.e, d.m[x])) : x \in DOMAIN d.m }
         [] OTHER -> { <<>> }

\* The faults a report has to name: everything that is there and not allowed,
\* or if there is no such thing, everything that is missing.
Blame(T, d) == IF Wrong(T, d) # {} THEN Wrong(T, d) ELSE Faults(T, d)

---------------------------------------------------------------------------
(* Defaults *)

RECURSIVE Hydrate(_, _), Dehydrate(_, _)

\* d (an instance of T) with every default filled in.
Hydrate(T, d) ==
  CASE T.k \in { "b", "e" } -> d
    [] T.k = "df" -> IF Valid(T.t, d) THEN Hydrate(T.t, d) ELSE d
    [] T.k = "st" ->
         LET keep == DOMAIN d.m
             add  == { x \in DOMAIN T.f \ keep : T.f[x].p = "r" } IN
         [m |-> [x \in keep \cup add |->
                   IF x \in keep THEN Hydrate(T.f[x].t, d.m[x]) ELSE Completion(T.f[x].t)]]
    [] T.k = "ol" -> [l |-> [i \in DOMAIN d.l |-> Hydrate(T.e, d.l[i])]]
    [] T.k = "cl" -> [l |-> [i \in DOMAIN d.l |-> Hydrate(T.es[i], d.l[i])]]
    [] T.k = "mp" -> [m |-> [x \in DOMAIN d.m |-> Hydrate(T.e, d.m[x])]]
    [] T.k = "u"  -> Hydrate(AltOf(T, d), d)

\* What a field of type T holds by default; a closed list of
\* complete elements has one.
IsDefault(T, d) ==
  \/ T.k = "df" /\ T.dv = d
  \/ T.k = "cl" /\ Complete(T) /\ Completion(T) = d

\* d (an instance of T) with every default taken out, where leaving it out is
\* possible: fields of structs, also inside of list elements.
Dehydrate(T, d) ==
  CASE T.k \in { "b", "e", "cl", "mp", "u" } -> d
    [] T.k = "df" -> IF Valid(T.t, d) THEN Dehydrate(T.t, d) ELSE d
    [] T.k = "st" ->
         LET drop == { x \in DOMAIN d.m : IsDefault(T.f[x].t, d.m[x]) } IN
         [m |-> [x \in DOMAIN d.m \ drop |-> Dehydrate(T.f[x].t, d.m[x])]]
    [] T.k = "ol" -> [l |-> [i \in DOMAIN d.l |-> Dehydrate(IF T.e.k = "u" THEN AltOf(T.e, d.l[i]) ELSE T.e, d.l[i])]]

---------------------------------------------------------------------------
(* Backwards compatibility.  "y": n subsumes o; "n": it does not; "?":     *)
(* outside of the fragment in which the answer of the CUE evaluator Thema  *)
(* relies on agrees with the mathematical relation (see DESIGN.md).        *)

And3(S) == IF "n" \in S THEN "n" ELSE IF "?" \in S THEN "?" ELSE "y"

RECURSIVE Compat(_, _), CompatField(_, _), Steady(_)

\* The evaluator recognises the type as compatible with itself: it does not
\* for maps, nor for types given by a function call.
Tagged(T) == \A i \in DOMAIN T.alts : T.alts[i].k = "st" /\ "k" \in DOMAIN T.alts[i].f
Steady(T) ==
  CASE T.k = "b"  -> T.n # "min1"
    [] T.k = "df" -> Steady(T.t)
    [] T.k = "st" -> \A x \in DOMAIN T.f : Steady(T.f[x].t)
    [] T.k = "ol" -> Steady(T.e)
    [] T.k = "cl" -> \A i \in DOMAIN T.es : Steady(T.es[i])
    [] T.k = "mp" -> FALSE
    [] T.k = "u"  -> Tagged(T) /\ \A i \in DOMAIN T.alts : Steady(T.alts[i])
    [] OTHER -> TRUE

Compat(o, n) ==
  IF n.k = "b" /\ n.n = "min1" THEN "?"
  ELSE IF o = n THEN (IF Steady(o) THEN "y" ELSE "?")
  ELSE IF n.k = "b" /\ n.n = "any" THEN (IF o.k = "df" THEN "?" ELSE "y")
  ELSE CASE o.k = "b" /\ n.k = "b" ->
              IF BaseSub(o.n, n.n)
              THEN IF (o.n \notin DisjBases /\ n.n \in DisjBases) \/ n.n = "min1" THEN "?" ELSE "y"
              ELSE IF \E a \in NumAtoms \cup { "s:", "s:a", "s:x", "b:true", "null" } : InBase(o.n, a) /\ ~InBase(n.n, a)
                   THEN "n" ELSE "?"
         [] o.k = "e" /\ n.k = "e" ->
              IF SeqToSet(o.s) \subseteq SeqToSet(n.s)
              THEN IF Len(o.s) = 1 /\ Len(n.s) > 1 THEN "?" ELSE "y"
              ELSE "n"
         [] o.k = "e" /\ n.k = "b" ->
              IF \A i \in DOMAIN o.s : InBase(n.n, o.s[i])
              THEN IF n.n \in DisjBases \/ n.n = "min1" THEN "?" ELSE "y"
              ELSE "n"
         [] o.k = "b" /\ n.k = "e" ->
              IF o.n \in { "bool", "null" } THEN "?" ELSE "n"
         [] o.k = "df" /\ n.k = "df" ->
              IF o.dv # n.dv THEN "n"
              ELSE IF o.t = n.t THEN "y"
              ELSE IF o.t.k = "e" /\ n.t.k = "e" THEN (IF SeqToSet(o.t.s) \subseteq SeqToSet(n.t.s) THEN "y" ELSE "n")
              ELSE "?"
         [] o.k = "df" /\ n.k # "df" ->
              IF o.t.k = "b" /\ n.k = "b"
              THEN IF o.t = n THEN "y" ELSE IF Compat(o.t, n) = "n" THEN "n" ELSE "?"
              ELSE IF Compat(o.t, n) = "n" THEN "n" ELSE "?"
         [] o.k # "df" /\ n.k = "df" ->
              IF Compat(o, n.t) = "n" THEN "n" ELSE "?"
         [] o.k = "st" /\ n.k = "st" -> CompatField(o.f, n.f)
         [] o.k = "ol" /\ n.k = "ol" ->
              \* the evaluator does not compare element types: only agreement is decided
              IF Compat(o.e, n.e) = "y" THEN "y" ELSE "?"
         [] o.k = "cl" /\ n.k = "cl" ->
              IF Len(o.es) # Len(n.es) THEN "n"
              ELSE And3({ Compat(o.es[i], n.es[i]) : i \in DOMAIN o.es })
         [] o.k = "cl" /\ n.k = "ol" ->
              IF And3({ Compat(o.es[i], n.e) : i \in DOMAIN o.es }) = "y" THEN "y" ELSE "?"
         [] o.k = "ol" /\ n.k = "cl" -> "n"
         [] o.k = "mp" /\ n.k = "mp" ->
              IF Compat(o.e, n.e) = "n" THEN "n" ELSE "?"
         [] o.k \in { "st", "mp" } /\ n.k \in { "st", "mp" } -> "?"
         [] o.k = "u" /\ ~Tagged(o) /\ n.k # "u" ->
              IF \E i \in DOMAIN o.alts : Compat(o.alts[i], n) = "n" THEN "n" ELSE "?"
         [] n.k = "u" /\ (~Tagged(n) \/ (o.k = "u" /\ ~Tagged(o))) -> "?"
         [] o.k = "u" /\ n.k = "u" ->
              IF SeqToSet(o.alts) \subseteq SeqToSet(n.alts) THEN "?"
              ELSE IF \E i \in DOMAIN o.alts : \A j \in DOMAIN n.alts :
                        o.alts[i].f["k"].t # n.alts[j].f["k"].t
                   THEN "n" ELSE "?"
         [] o.k \in { "u", "st" } /\ n.k \in { "u", "st" } -> "?"
         [] OTHER -> "n"

CompatField(of, nf) ==
  And3( { IF x \notin DOMAIN nf THEN "n"
          ELSE IF of[x].p = "o" /\ nf[x].p = "r" THEN "n"
          ELSE IF of[x].p = "o" /\ nf[x].p = "o" /\ of[x].t # nf[x].t /\ (of[x].t.k = "df" \/ nf[x].t.k = "df")
               THEN (IF of[x].t.k = "df" /\ nf[x].t.k = "df" /\ of[x].t.dv # nf[x].t.dv THEN "n" ELSE "?")
          ELSE Compat(of[x].t, nf[x].t) : x \in DOMAIN of }
        \cup { IF nf[x].p = "r" THEN "n" ELSE "y" : x \in DOMAIN nf \ DOMAIN of } )

\* Somewhere in the change, data that was allowed is no longer, at a place where
\* the evaluator is known not to look: element types of open lists, and maps
\* that became structs.  (See known-findings.json.)
RECURSIVE EvaluatorBlind(_, _)
EvaluatorBlind(o, n) ==
  CASE o.k = "ol" /\ n.k = "ol" -> Compat(o.e, n.e) = "n" \/ EvaluatorBlind(o.e, n.e)
    [] o.k = "mp" /\ n.k = "st" -> TRUE
    [] o.k = "st" /\ n.k = "st" -> \E x \in DOMAIN o.f \cap DOMAIN n.f : EvaluatorBlind(o.f[x].t, n.f[x].t)
    [] o.k = "cl" /\ n.k = "cl" -> \E i \in DOMAIN o.es \cap DOMAIN n.es : EvaluatorBlind(o.es[i], n.es[i])
    [] o.k = "df" /\ n.k = "df" -> EvaluatorBlind(o.t, n.t)
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* joinSchema: a struct every schema is unified with.  Models keep to      *)
(* joins whose fields a schema either leaves alone or narrows.             *)

Joined(join, T) ==
  IF DOMAIN join = { "none" } THEN T
  ELSE [k |-> "st",
        f |-> [x \in DOMAIN join.f \cup DOMAIN T.f |->
                 IF x \notin DOMAIN T.f THEN join.f[x]
                 ELSE IF x \notin DOMAIN join.f THEN T.f[x]
                 ELSE [p |-> IF join.f[x].p = "r" \/ T.f[x].p = "r" THEN "r" ELSE "o",
                       t |-> T.f[x].t]]]
=============================================================================
