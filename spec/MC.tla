---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* The cases that are explored exhaustively.  Every configuration MC*.cfg  *)
(* picks one pair of Cases and Script.                                     *)
(***************************************************************************)
EXTENDS Run, Small, FiniteSetsExt

NoJoin == [none |-> TRUE]
Lin(schemas) == [name |-> "lin", join |-> NoJoin, schemas |-> schemas, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
BindOp(L, lin) == [e |-> "bind", L |-> L, lin |-> lin]

---------------------------------------------------------------------------
(* Numbering: all sequences of version numbers up to a length, with types   *)
(* that fit to what the numbers claim, so that only the numbers decide.     *)

VPool == { << a, b >> : a, b \in 0..2 }
NumCases == UNION { [1..n -> VPool] : n \in 1..Bounds(3, 4) }

RECURSIVE FitTypes(_, _)
\* A minor version adds an optional field, anything else a required one.
FitTypes(vs, i) ==
  IF i = 1 THEN ("a" :> R(B("str")))
  ELSE FitTypes(vs, i - 1) @@ (("f" \o ToString(i)) :> IF vs[i][2] = 0 THEN R(B("str")) ELSE O(B("str")))

FitLin(vs) == Lin([i \in DOMAIN vs |-> [v |-> vs[i], t |-> St(FitTypes(vs, i))]])
NumScript(c) == << BindOp("L", FitLin(c)), [e |-> "nav", L |-> "L"] >>

---------------------------------------------------------------------------
(* Navigation: all correct numberings up to a length, and all lookups.      *)

RECURSIVE Numberings(_)
Numberings(n) ==
  IF n = 1 THEN { << << 0, 0 >> >> }
  ELSE UNION { { Append(s, v) : v \in VNext(s[n - 1]) } : s \in Numberings(n - 1) }
NavCases == UNION { Numberings(n) : n \in 1..Bounds(6, 9) }
NavScript(c) ==
  << BindOp("L", FitLin(c)), [e |-> "nav", L |-> "L"] >>
  \o LET top == c[Len(c)]
         S == SetToSeq({ << a, b >> : a \in 0..(top[1] + 1), b \in 0..(Max({ c[i][2] : i \in DOMAIN c }) + 1) }) IN
     [i \in DOMAIN S |-> [e |-> "lookup", L |-> "L", v |-> S[i]]]

---------------------------------------------------------------------------
(* Compatibility: all pairs of small schemas, claimed to be a minor and a   *)
(* major change.                                                            *)

CStructs == { << >> } \cup { ("a" :> f) : f \in { R(t) : t \in CTypes } \cup { O(t) : t \in CTypes } }
CQuick == { B("str"), B("int"), B("num"), B("any"), B("u8"), B("u16"), E(<< "s:a" >>), E(<< "s:a", "s:b" >>), E(<< "s:b", "s:a", "s:c" >>),
            Df(B("str"), A("s:a")), Df(B("str"), A("s:b")), Df(E(<< "s:a", "s:b" >>), A("s:a")), Df(E(<< "s:a", "s:b", "s:c" >>), A("s:a")),
            St("b" :> R(B("str"))), St("b" :> O(B("str"))), St(("b" :> R(B("str"))) @@ ("c" :> O(B("int")))),
            OL(B("str")), CL(<< B("str") >>) }
CQStructs == { << >> } \cup { ("a" :> f) : f \in { R(t) : t \in CQuick } \cup { O(t) : t \in CQuick } }
CompatCases == LET S == Bounds(CQStructs, CStructs) IN { << o, n, p >> \in S \X S \X { 0, 1 } :
                  p = 0 \/ Deep \/ (o # << >> /\ o["a"].p = "r" /\ n # << >> /\ n["a"].p = "r") }
\* where in the lineage the change is: on its own, or after another minor one
CompatScript(c) ==
  LET pre == IF c[3] = 0 THEN << [v |-> << 0, 0 >>, t |-> St(c[1])] >>
             ELSE << [v |-> << 0, 0 >>, t |-> St("z" :> R(B("bool")))], [v |-> << 1, 0 >>, t |-> St(c[1])] >>
      l(v) == Lin(Append(pre, [v |-> v, t |-> St(c[2])]))
      m == pre[Len(pre)].v[1] IN
  IF pre[Len(pre)].t # pre[1].t /\ Compat(pre[1].t, pre[Len(pre)].t) # "n" THEN << >>
  ELSE << BindOp("A", l(<< m, 1 >>)), BindOp("B", l(<< m + 1, 0 >>)) >>

---------------------------------------------------------------------------
(* Validity: all small types and all small data.                            *)

ValidCases == { << p, t >> : p \in { "r", "o" }, t \in CTypes }
\* The type as it is, inside of a list, and inside of a struct.
ValidScript(c) ==
  LET f == [p |-> c[1], t |-> c[2]]
      lin == Lin(<< [v |-> << 0, 0 >>, t |-> St("a" :> f)] >>)
      ds == SetToSeq(VDocs)
      one(d, i) == << [e |-> "validate", L |-> "L", v |-> << 0, 0 >>, d |-> d, h2 |-> "h" \o ToString(i), in |-> "json"] >> IN
  << BindOp("L", lin) >> \o FlattenSeq([i \in DOMAIN ds |-> one(ds[i], i)])

\* ... and what becomes of valid data when defaults are filled in and taken out.
HydTypes == { Df(B("str"), A("s:a")), Df(B("int"), A("n:1")), Df(E(<< "s:a", "s:b" >>), A("s:a")), B("str"), E(<< "s:a" >>) }
HydInner == { St(("b" :> f) @@ ("c" :> O(Df(B("int"), A("n:1"))))) : f \in { R(t) : t \in HydTypes } \cup { O(t) : t \in HydTypes } }
HydFields == { R(t) : t \in HydTypes \cup HydInner } \cup { O(t) : t \in HydTypes \cup HydInner }
             \cup { R(OL(t)) : t \in HydInner } \cup { O(OL(t)) : t \in { CHOOSE x \in HydInner : TRUE } }
HydValues(t) ==
  CASE t.k = "df" -> { t.dv } \cup (IF t.t.k = "e" THEN { A("s:b") } ELSE IF t.t.n = "str" THEN { A("s:z") } ELSE { A("n:2") })
    [] t.k = "e" -> { A("s:a") }
    [] t.k = "b" -> { A("s:z") }
    [] OTHER -> {}
HydInnerValues(t) ==
  { Ob(m) : m \in ({ << >> } \cup { ("b" :> x) : x \in HydValues(t.f["b"].t) } \cup { ("c" :> A(n)) : n \in { "n:1", "n:2" } }
              \cup { ("b" :> x) @@ ("c" :> A(n)) : x \in HydValues(t.f["b"].t), n \in { "n:1", "n:2" } }) }
HydAll(t) == CASE t.k = "st" -> HydInnerValues(t)
               [] t.k = "ol" -> { Ar(<< >>) } \cup { Ar(<< x >>) : x \in HydInnerValues(t.e) }
                                \cup { Ar(<< x, y >>) : x, y \in { Ob(("b" :> z) @@ ("c" :> A("n:1"))) : z \in HydValues(t.e.f["b"].t) } }
               [] OTHER -> HydValues(t)
HydDocs(f, g) ==
  LET gs == IF g = "no" THEN { << >> } ELSE { << >>, ("g" :> A("b:true")), ("g" :> A("b:false")) } IN
  { Ob(x @@ y) : x \in { << >> } \cup { ("a" :> z) : z \in HydAll(f.t) }, y \in gs }
HydCases == UNION { { << f, g, d >> : d \in HydDocs(f, g) } : f \in HydFields, g \in { "no", "r", "o" } }
HydScript(c) ==
  LET T == St(("a" :> c[1]) @@ (IF c[2] = "no" THEN << >> ELSE ("g" :> [p |-> c[2], t |-> Df(B("bool"), A("b:true"))])))
      lin == Lin(<< [v |-> << 0, 0 >>, t |-> T] >>) IN
  << BindOp("L", lin),
     [e |-> "validate", L |-> "L", v |-> << 0, 0 >>, d |-> c[3], h2 |-> "h", in |-> "json"],
     [e |-> "hydrate", h |-> "h", h2 |-> "y"], [e |-> "dehydrate", h |-> "h", h2 |-> "z"],
     [e |-> "hydrate", h |-> "z", h2 |-> "zy"], [e |-> "dehydrate", h |-> "y", h2 |-> "yz"],
     [e |-> "hydrate", h |-> "y", h2 |-> "yy"], [e |-> "observe", h |-> "h"] >>

---------------------------------------------------------------------------
(* Lenses in Go: every set of lenses between the versions of a lineage.     *)

Cross(c) == { << x, y >> : x, y \in SeqToSet(c) }
GoSetCases ==
  { << n, S >> : n \in Numberings(2), S \in SUBSET { << x, y >> : x, y \in { << 0, 0 >>, << 0, 1 >>, << 1, 0 >> } } }
  \cup UNION { { << n, S >> : S \in { T \in SUBSET Cross(n) : Cardinality(T) \in Bounds(3..4, 0..9) } } : n \in Numberings(3) }
CpAll(T, to) == [y \in DOMAIN T.f \cap DOMAIN to.f |-> [x |-> "op", p |-> << y >>]]
GoSetScript(c) ==
  LET base == FitLin(c[1])
      ids == SetToSeq(c[2])
      lin == [base EXCEPT !.gl = [i \in DOMAIN ids |-> [from |-> ids[i][1], to |-> ids[i][2], beh |-> "ok", map |-> << >>]]] IN
  IF lin.gl = << >> THEN << >> ELSE << BindOp("L", lin) >>

---------------------------------------------------------------------------
(* Lenses in CUE: every order in which they may be listed.                  *)

RenLens(x, y, c) == [from |-> x, to |-> y, map |-> c, lac |-> << >>]
OrderCases == UNION { { << n, p >> : p \in Permutations(1..Cardinality(NeededLenses(FitLin(n)))) } : n \in Numberings(2) \cup Numberings(3) }
OrderScript(c) ==
  LET base == FitLin(c[1])
      need == SetToSortSeq(NeededLenses(base), LAMBDA a, b : VLess(a[2], b[2]) \/ (a[2] = b[2] /\ VLess(a[1], b[1])))
      mk(id) == RenLens(id[1], id[2],
                  [y \in DOMAIN TypeOf(base, id[2]).f |->
                     IF y \in DOMAIN TypeOf(base, id[1]).f /\ TypeOf(base, id[1]).f[y].p = TypeOf(base, id[2]).f[y].p
                     THEN [x |-> IF TypeOf(base, id[2]).f[y].p = "r" THEN "cp" ELSE "op", p |-> << y >>]
                     ELSE [x |-> "k", d |-> A("s:new")]]) IN
  << BindOp("L", [base EXCEPT !.lenses = [i \in 1..Len(need) |-> mk(need[c[2][i]])]]),
     [e |-> "validate", L |-> "L", v |-> c[1][1], d |-> Ob("a" :> A("s:q")), h2 |-> "h", in |-> "json"],
     [e |-> "translate", h |-> "h", v |-> c[1][Len(c[1])], h2 |-> "g"],
     [e |-> "translate", h |-> "g", v |-> c[1][1], h2 |-> "f"],
     [e |-> "observe", h |-> "h"] >>

---------------------------------------------------------------------------
(* Attribution: every pattern of schemas accepting and refusing a document, *)
(* for every numbering.  Compatibility checks are off, so that every        *)
(* pattern can occur.                                                       *)

AccCases == UNION { { << n, P >> : P \in SUBSET (1..len) } : len \in 1..Bounds(4, 6), n \in UNION { Numberings(m) : m \in 1..Bounds(4, 6) } }
AccOK(c) == \A i \in c[2] : i \in DOMAIN c[1]
AccScript(c) ==
  IF ~AccOK(c) THEN << >>
  ELSE
  LET ty(i) == IF i \in c[2] THEN St("a" :> R(B("str"))) ELSE St("a" :> R(B("int")))
      base == [Lin([i \in DOMAIN c[1] |-> [v |-> c[1][i], t |-> ty(i)]]) EXCEPT !.skip = TRUE]
      need == SetToSortSeq(NeededLenses(base), LAMBDA a, b : VLess(a[2], b[2]) \/ (a[2] = b[2] /\ VLess(a[1], b[1])))
      lin == [base EXCEPT !.lenses = [i \in DOMAIN need |-> RenLens(need[i][1], need[i][2],
                "a" :> [x |-> "k", d |-> IF TypeOf(base, need[i][2]).f["a"].t.n = "str" THEN A("s:" \o ToString(i)) ELSE A("n:1")])]]
      ds == << Ob("a" :> A("s:q")), Ob("a" :> A("n:7")), Ob("a" :> A("b:true")) >> IN
  << BindOp("L", lin) >>
  \o FlattenSeq([j \in 1..3 |-> << [e |-> "any", L |-> "L", d |-> ds[j], h2 |-> "h" \o ToString(j), in |-> "json"] >>])
  \o (IF Len(c[1]) > 3 /\ ~Deep THEN << >> ELSE
      FlattenSeq([i \in DOMAIN c[1] |-> FlattenSeq([j \in 1..2 |->
        << [e |-> "mux", L |-> "L", v |-> c[1][i], d |-> ds[j], k |-> IF (i + j) % 2 = 0 THEN "untyped" ELSE "byte", in |-> "json"] >>])]))

---------------------------------------------------------------------------
(* Append-only: a lineage, and every way to keep, change, add and remove    *)
(* schemas.                                                                 *)

AppTypes == << St("a" :> R(B("str"))), St("a" :> R(B("int"))), St(("a" :> R(B("str"))) @@ ("b" :> O(B("int")))),
               St(("a" :> R(B("str"))) @@ ("b" :> O(B("any")))) >>
AppSeqs == UNION { [1..n -> 1..Bounds(3, 4)] : n \in 1..3 }
AppCases == { << x, y >> \in AppSeqs \X AppSeqs : Deep \/ Len(x) + Len(y) <= 4 }
AppLin(s) == [Lin([i \in DOMAIN s |-> [v |-> << i - 1, 0 >>, t |-> AppTypes[s[i]]]]) EXCEPT !.skip = TRUE]
AppScript(c) == << BindOp("L", AppLin(c[1])), BindOp("M", AppLin(c[2])),
                   [e |-> "append", L |-> "L", L2 |-> "M"], [e |-> "append", L |-> "M", L2 |-> "L"] >>
ASSUME Written
=============================================================================
