------------------------------- MODULE Lineage -------------------------------
(***************************************************************************)
(* Lineages: an ordered list of versioned schemas, and lenses between      *)
(* them.  Decides which lineages may be bound, what their schemas are, how *)
(* to move around in them, and which schema accepts which data.            *)
(*                                                                         *)
(* A lineage is a record                                                   *)
(*   name     its name                                                     *)
(*   join     a struct type, or [none |-> TRUE]                            *)
(*   schemas  <<[v |-> <<major, minor>>, t |-> struct type], ...>>         *)
(*   lenses   <<[from, to, map, lac], ...>>: lenses written in CUE         *)
(*   gl       <<[from, to, beh], ...>>: lenses written in Go               *)
(*   skip     whether compatibility checks are switched off                *)
(***************************************************************************)
EXTENDS Values

VLess(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2])
VNext(v)    == { << v[1], v[2] + 1 >>, << v[1] + 1, 0 >> }

N(lin)          == Len(lin.schemas)
Ver(lin, i)     == lin.schemas[i].v
Versions(lin)   == { Ver(lin, i) : i \in 1..N(lin) }
HasVer(lin, v)  == \E i \in 1..N(lin) : Ver(lin, i) = v
Idx(lin, v)     == CHOOSE i \in 1..N(lin) : Ver(lin, i) = v
TypeAt(lin, i)  == Joined(lin.join, lin.schemas[i].t)
TypeOf(lin, v)  == TypeAt(lin, Idx(lin, v))

---------------------------------------------------------------------------
(* Version numbers: there is exactly one correct sequence *)

NumberingOK(lin) ==
  /\ Ver(lin, 1) = << 0, 0 >>
  /\ \A i \in 2..N(lin) : Ver(lin, i) \in VNext(Ver(lin, i - 1))

(* Compatibility and version numbers must agree *)

\* "ok", "order", "compat" (rejected for claiming the wrong kind of change) or "?"
SchemaVerdict(lin, i) ==
  IF i = 1 THEN "ok"
  ELSE IF VLess(Ver(lin, i), Ver(lin, i - 1)) THEN "order"
  ELSE IF lin.skip THEN "ok"
  ELSE LET c == Compat(TypeAt(lin, i - 1), TypeAt(lin, i))
           minor == Ver(lin, i)[2] # 0 IN
       IF c = "?" THEN "?"
       ELSE IF minor = (c = "y") THEN "ok" ELSE "compat"

---------------------------------------------------------------------------
(* Lenses *)

\* The explicit lenses a lineage needs: backward over every change, forward
\* over every breaking one.
NeededLenses(lin) ==
  { << Ver(lin, i), Ver(lin, i - 1) >> : i \in 2..N(lin) }
  \cup { << Ver(lin, i - 1), Ver(lin, i) >> : i \in { j \in 2..N(lin) : Ver(lin, j)[1] # Ver(lin, j - 1)[1] } }

LensIds(ls) == { << ls[i].from, ls[i].to >> : i \in DOMAIN ls }

LensLess(x, y) == VLess(x.to, y.to) \/ (x.to = y.to /\ VLess(x.from, y.from))
LensesOrdered(ls) == \A i \in 2..Len(ls) : ~LensLess(ls[i], ls[i - 1])

LensesComplete(lin) ==
  /\ LensIds(lin.lenses) = NeededLenses(lin)
  /\ Cardinality(NeededLenses(lin)) = Len(lin.lenses)
  /\ LensesOrdered(lin.lenses)

GoLensVerdict(lin) ==
  LET ids == LensIds(lin.gl) need == NeededLenses(lin) IN
  IF Cardinality(ids) # Len(lin.gl) \/ \E i \in DOMAIN lin.gl : lin.gl[i].beh = "nilfn" THEN "other"
  ELSE IF ~(need \subseteq ids) THEN "ErrMissingLenses"
  ELSE IF ids # need THEN "ErrErroneousLenses"
  ELSE "ok"

---------------------------------------------------------------------------
(* Binding.  The outcomes a bind may have: "ok", an error class, "other"   *)
(* (an error without a class), "any" (not decided by this model).          *)

RECURSIVE FirstBad(_, _)
FirstBad(lin, i) ==
  IF i > N(lin) THEN "ok"
  ELSE IF SchemaVerdict(lin, i) = "ok" THEN FirstBad(lin, i + 1)
  ELSE SchemaVerdict(lin, i)

BindOutcome(lin) ==
  LET s == FirstBad(lin, 1) IN
  CASE s = "?"      -> "any"
    [] s = "order"  -> "ErrInvalidSchemasOrder"
    [] s = "compat" -> "ErrInvalidLineage"
    [] OTHER ->
         IF ~NumberingOK(lin) THEN "ErrInvalidLineage"
         ELSE IF Len(lin.gl) > 0 THEN GoLensVerdict(lin)
         ELSE IF ~LensesOrdered(lin.lenses) THEN "ErrInvalidLensesOrder"
         ELSE "ok"

\* What the outcome is about.
BindReason(lin) ==
  LET s == FirstBad(lin, 1) IN
  IF s \in { "?", "compat" } THEN "compat"
  ELSE IF s = "order" \/ ~NumberingOK(lin) THEN "numbering"
  ELSE IF Len(lin.gl) > 0 THEN "golenses"
  ELSE IF ~LensesOrdered(lin.lenses) THEN "lensorder"
  ELSE "none"

---------------------------------------------------------------------------
(* Moving around in a bound lineage *)

NoVer == << >>
Latest(lin)         == Ver(lin, N(lin))
First(lin)          == Ver(lin, 1)
SuccessorOf(lin, v)   == IF Idx(lin, v) = N(lin) THEN NoVer ELSE Ver(lin, Idx(lin, v) + 1)
PredecessorOf(lin, v) == IF Idx(lin, v) = 1 THEN NoVer ELSE Ver(lin, Idx(lin, v) - 1)
LatestInMajor(lin, v) ==
  LET S == { w \in Versions(lin) : w[1] = v[1] } IN
  CHOOSE w \in S : \A x \in S : ~VLess(w, x)

---------------------------------------------------------------------------
(* Validation *)

Accepts(lin, v, d) == Valid(TypeOf(lin, v), d)
Acceptors(lin, d)  == { v \in Versions(lin) : Accepts(lin, v, d) }
OldestAcceptor(lin, d) ==
  IF Acceptors(lin, d) = {} THEN NoVer
  ELSE CHOOSE v \in Acceptors(lin, d) : \A w \in Acceptors(lin, d) : ~VLess(w, v)
NewestAcceptor(lin, d) ==
  IF Acceptors(lin, d) = {} THEN NoVer
  ELSE CHOOSE v \in Acceptors(lin, d) : \A w \in Acceptors(lin, d) : ~VLess(v, w)

---------------------------------------------------------------------------
(* Append-only evolution: the published schemas stay, new ones follow *)

SameSchemas(a, b, n) == \A i \in 1..n : Ver(a, i) = Ver(b, i) /\ TypeAt(a, i) = TypeAt(b, i)
AppendOnly(old, new) == N(new) >= N(old) /\ SameSchemas(old, new, N(old))

\* A type without the defaults that have no bearing on which data is accepted:
\* those of optional fields and of elements.
RECURSIVE Bare(_)
NoDef(T) == IF T.k = "df" THEN T.t ELSE T
Bare(T) ==
  CASE T.k = "st" -> [T EXCEPT !.f = [x \in DOMAIN T.f |->
                        IF T.f[x].p = "o" THEN [p |-> "o", t |-> Bare(NoDef(T.f[x].t))] ELSE [p |-> "r", t |-> Bare(T.f[x].t)]]]
    [] T.k \in { "ol", "mp" } -> [T EXCEPT !.e = Bare(NoDef(T.e))]
    [] T.k = "cl" -> [T EXCEPT !.es = [i \in DOMAIN T.es |-> Bare(T.es[i])]]
    [] T.k = "u" -> [T EXCEPT !.alts = [i \in DOMAIN T.alts |-> Bare(T.alts[i])]]
    [] OTHER -> T

SameData(a, b, n) == \A i \in 1..n : Ver(a, i) = Ver(b, i) /\ Bare(TypeAt(a, i)) = Bare(TypeAt(b, i))

\* "ok", "fail", or "?" where the evaluator cannot tell that schemas are equal,
\* or they differ in defaults only that no data is accepted or refused for.
AppendVerdict(old, new) ==
  IF N(new) < N(old) \/ ~SameData(old, new, N(old)) THEN "fail"
  ELSE IF ~AppendOnly(old, new) THEN "?"
  ELSE IF \A i \in 1..N(old) : Steady(TypeAt(old, i)) THEN "ok" ELSE "?"
=============================================================================
