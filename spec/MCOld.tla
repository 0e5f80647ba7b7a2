-------------------------------- MODULE MCOld --------------------------------
(***************************************************************************)
(* Lineages as they grow, in the old form and rewritten.                   *)
(***************************************************************************)
EXTENDS Legacy, Small, Json, SequencesExt

Long == IF Deep THEN 6 ELSE 5
\* whether each version after the first is a breaking one
Shapes == UNION { [1..n -> BOOLEAN] : n \in 0..(Long - 1) }

VersionsOf(s) ==
  LET vs[i \in 0..Len(s)] == IF i = 0 THEN << 0, 0 >> ELSE IF s[i] THEN << vs[i - 1][1] + 1, 0 >> ELSE << vs[i - 1][1], vs[i - 1][2] + 1 >> IN
  [i \in 1..(Len(s) + 1) |-> vs[i - 1]]

\* a required field that breaking changes rename, with its content in a struct,
\* and one optional field for each minor version
Req(v) == "m" \o ToString(v[1])
TypeFor(v) ==
  St([x \in { Req(v) } \cup { "o" \o ToString(j) : j \in 1..v[2] } |->
        IF x = Req(v) THEN R(St(("in" :> R(B("str"))) @@ ("n" :> R(Df(B("int"), A("n:7"))))))
        ELSE O(B("int"))])

Cp(p) == [x |-> "cp", p |-> p]
Opt(p) == [x |-> "op", p |-> p]
LensFor(v, w) ==
  [ from |-> v, to |-> w, lac |-> IF v[1] = w[1] THEN << >> ELSE << [ty |-> 2, msg |-> "dropped", c |-> "has", p |-> << "o1" >>, v |-> "", sp |-> << Req(v), "in" >>, tp |-> << >>] >>,
    map |-> [x \in { Req(w) } \cup { "o" \o ToString(j) : j \in 1..(IF v[1] = w[1] THEN w[2] ELSE 0) } |->
               IF x = Req(w)
               THEN [x |-> "st", f |-> ("in" :> Cp(<< Req(v), "in" >>)) @@ ("n" :> [x |-> "eq", p |-> << Req(v), "in" >>, v |-> "s:a", d |-> A("n:1"), e |-> A("n:2")])]
               ELSE Opt(<< x >>)] ]
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN << >>
              ELSE LET x == CHOOSE y \in S : \A z \in S : ~LensLess([to |-> z[2], from |-> z[1]], [to |-> y[2], from |-> y[1]]) IN
                   << LensFor(x[1], x[2]) >> \o Ordered(S \ { x })
Whole(s) ==
  LET vs == VersionsOf(s)
      l == [name |-> "lin", join |-> [none |-> TRUE], schemas |-> [i \in DOMAIN vs |-> [v |-> vs[i], t |-> TypeFor(vs[i])]], gl |-> << >>, skip |-> FALSE, lenses |-> << >>] IN
  [l EXCEPT !.lenses = Ordered(NeededLenses(l))]

---------------------------------------------------------------------------
\* A lineage grows; at any point, lenses over breaking changes may be missing.

VARIABLES shape, gone
MInit == shape = << >> /\ gone = {}
Breaking(l) == { x \in NeededLenses(l) : x[1][1] # x[2][1] }
MNext ==
  \/ Len(shape) < Long - 1 /\ \E b \in BOOLEAN : shape' = Append(shape, b) /\ UNCHANGED gone
  \/ \E x \in Breaking(Whole(shape)) \ gone : gone' = gone \cup { x } /\ UNCHANGED shape
MSpec == MInit /\ [][MNext]_<< shape, gone >>

Lin == LET l == Whole(shape) IN [l EXCEPT !.lenses = SelectSeq(l.lenses, LAMBDA x : << x.from, x.to >> \notin gone)]

\* Nothing is lost, everything that is needed is there or asked for, in order.
Kept ==
  LET l == Lin w == Rewritten(ToLegacy(l)) IN
  /\ w.vers = [i \in 1..N(l) |-> Ver(l, i)]
  /\ w.types = [i \in 1..N(l) |-> l.schemas[i].t]
  /\ LensIds(w.lens) = NeededLenses(l) /\ LensesOrdered(w.lens) /\ Len(w.lens) = Cardinality(NeededLenses(l))
  /\ \A i \in DOMAIN w.lens : w.lens[i].todo = (w.lens[i].from[1] = w.lens[i].to[1] \/ << w.lens[i].from, w.lens[i].to >> \in gone)
\* The lineages are correct, and everything can be translated everywhere.
DocFor(v) == Ob((Req(v) :> Ob("in" :> A("s:a"))) @@ (IF v[2] > 0 THEN ("o1" :> A("n:3")) ELSE << >>))
Good ==
  gone = {} => /\ BindOutcome(Lin) = "ok"
               /\ LensesComplete(Lin)
               /\ \A v, w \in Versions(Lin) : Translate(Lin, [v |-> v, d |-> DocFor(v), soft |-> {}, n |-> 0], w).st \in { "run", "unsure" }

---------------------------------------------------------------------------

Forms == << "old-embed", "old-basic", "old-path", "old-bare", "old-amp", "old-rev", "old-deep", "old-files",
            "old-embed cli", "old-path cli", "old-amp cli", "old-files cli", "old-bare cli", "old-deep cli", "old-basic cli", "old-rev cli" >>
Ops(s, form) ==
  LET l == Whole(s) vs == VersionsOf(s) IN
  << [e |-> "bind", L |-> "L", lin |-> l @@ [form |-> form]], [e |-> "nav", L |-> "L"] >>
  \o FlattenSeq([i \in DOMAIN vs |->
       << [e |-> "validate", L |-> "L", v |-> vs[i], d |-> DocFor(vs[i]), h2 |-> "h" \o ToString(i)] >>
       \o [j \in DOMAIN vs |-> [e |-> "translate", L |-> "L", h |-> "h" \o ToString(i), v |-> vs[j], h2 |-> "t" \o ToString(i) \o "-" \o ToString(j)]]])
ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq(Shapes) IN
         [i \in DOMAIN s |-> [id |-> "o" \o ToString(i), ops |-> Ops(s[i], Forms[(i % Len(Forms)) + 1])]])
=============================================================================
