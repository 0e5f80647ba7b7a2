------------------------------ MODULE Translate ------------------------------
(***************************************************************************)
(* Translation of an instance along the schemas of a lineage, one step at  *)
(* a time.  A step within a major version going up keeps the data; every   *)
(* other step applies the lens with exactly that source and target.  After *)
(* each step the result is unified with the target schema, which fills in  *)
(* its defaults, and the lacunas whose condition holds are emitted.        *)
(*                                                                         *)
(* A lens is [from, to, map, lac]; map assigns an expression to each field *)
(* of the result:                                                          *)
(*   [x |-> "cp", p |-> path]         copy from the input                  *)
(*   [x |-> "op", p |-> path]         copy from the input if present       *)
(*   [x |-> "k",  d |-> data]         a constant                           *)
(*   [x |-> "eq", p |-> path, v |-> atom, d |-> data, e |-> data]          *)
(*                                    d if the input has v at p, else e    *)
(*   [x |-> "st", f |-> [name -> expression]]   a struct                   *)
(*                                                                         *)
(* A lacuna is [ty, msg, c, p, v, sp, tp]: its type number and message, a  *)
(* condition c \in {"always", "never", "eq", "has"} about path p of the    *)
(* input, and source and target paths (<<>>: none).                        *)
(*                                                                         *)
(* The state of a translation is [v, d, soft, lac, st, calls], st one of   *)
(* "run", "fail" (no result), "unsure" (the evaluator may be unable to     *)
(* tell a default from a value: it fails, or gives this result).  soft is  *)
(* the set of fields that hold a default nobody wrote down.  A fourth      *)
(* status, "lost", is for lenses that do not produce instances of the      *)
(* schemas they pass through: a lens that follows may happen to mend that, *)
(* so all that is known is that the result, if any, is a valid instance.   *)
(* The same is known when a default that nobody wrote down is copied to    *)
(* where it does not belong ("blurred"): the evaluator may take another    *)
(* value of the disjunction for it (see known-findings.json).              *)
(***************************************************************************)
EXTENDS Lineage

RECURSIVE HasPath(_, _), AtPath(_, _)
HasPath(d, p) == IF p = << >> THEN TRUE
                 ELSE IsObj(d) /\ Head(p) \in DOMAIN d.m /\ HasPath(d.m[Head(p)], Tail(p))
AtPath(d, p)  == IF p = << >> THEN d ELSE AtPath(d.m[Head(p)], Tail(p))

HoldsEq(d, p, v) == HasPath(d, p) /\ AtPath(d, p) = [a |-> v]

RECURSIVE Evaluable(_, _), Present(_, _), Eval(_, _), Reads(_)
\* Everything the expression needs is in the input.
Evaluable(x, in) ==
  CASE x.x = "cp" -> HasPath(in, x.p)
    [] x.x = "eq" -> HasPath(in, x.p)
    [] x.x = "st" -> \A y \in DOMAIN x.f : Evaluable(x.f[y], in)
    [] OTHER -> TRUE
Present(x, in) == x.x = "op" => HasPath(in, x.p)
Eval(x, in) ==
  CASE x.x \in { "cp", "op" } -> AtPath(in, x.p)
    [] x.x = "k"  -> x.d
    [] x.x = "eq" -> IF HoldsEq(in, x.p, x.v) THEN x.d ELSE x.e
    [] x.x = "st" -> [m |-> [y \in { z \in DOMAIN x.f : Present(x.f[z], in) } |-> Eval(x.f[y], in)]]
\* The top-level input fields whose values the expression copies.
Reads(x) ==
  CASE x.x \in { "cp", "op" } -> { Head(x.p) }
    [] x.x = "st" -> UNION { Reads(x.f[y]) : y \in DOMAIN x.f }
    [] OTHER -> {}

LensEval(map, in) == [m |-> [y \in { z \in DOMAIN map : Present(map[z], in) } |-> Eval(map[y], in)]]

LacunaHolds(q, in) ==
  CASE q.c = "always" -> TRUE
    [] q.c = "never"  -> FALSE
    [] q.c = "eq"     -> HoldsEq(in, q.p, q.v)
    [] q.c = "has"    -> HasPath(in, q.p)

LacunaEvaluable(q, in) == q.c = "eq" => HasPath(in, q.p)
LacunaOut(q, in, res, to) ==
  [v |-> to, ty |-> q.ty, msg |-> q.msg,
   src |-> IF q.sp = << >> THEN << >> ELSE << [p |-> q.sp, d |-> AtPath(in, q.sp)] >>,
   tgt |-> IF q.tp = << >> THEN << >> ELSE << [p |-> q.tp, d |-> AtPath(res, q.tp)] >>]
LacunaOutOK(q, in, res) ==
  /\ q.sp # << >> => HasPath(in, q.sp)
  /\ q.tp # << >> => HasPath(res, q.tp)

---------------------------------------------------------------------------

Fail(t) == [t EXCEPT !.st = "fail"]
Lost(t) == [t EXCEPT !.st = "lost"]

\* The fields of the hydrated result that nobody wrote down.
Filled(T, d) == { x \in DOMAIN T.f \ DOMAIN d.m : T.f[x].p = "r" }

\* A default that was never written down is copied into a field whose own
\* default or set of values differs.
Blurred(lens, t, old, T) ==
  \E y \in DOMAIN lens.map :
    /\ y \in DOMAIN T.f
    /\ Reads(lens.map[y]) \cap t.soft # {}
    /\ \E z \in Reads(lens.map[y]) \cap t.soft :
          \/ z \notin DOMAIN old.f
          \/ ~( T.f[y].t = old.f[z].t \/ (old.f[z].t.k = "df" /\ T.f[y].t = old.f[z].t.t) )

LensStep(lin, lens, t, w) ==
  LET T   == TypeOf(lin, w)
      old == TypeOf(lin, t.v) IN
  IF \E y \in DOMAIN lens.map : ~Evaluable(lens.map[y], t.d)
  THEN Fail(t)
  ELSE
  LET r == LensEval(lens.map, t.d) IN
  IF \E i \in DOMAIN lens.lac : ~LacunaEvaluable(lens.lac[i], t.d) THEN Fail(t)
  ELSE IF ~Valid(T, r)
       THEN IF Blurred(lens, t, old, T) THEN [t EXCEPT !.st = "blurred"] ELSE Fail(t)
  ELSE
  LET h   == Hydrate(T, r)
      on  == SelectSeq(lens.lac, LAMBDA q : LacunaHolds(q, t.d)) IN
  IF \E i \in DOMAIN on : ~LacunaOutOK(on[i], t.d, r) THEN Fail(t)
  ELSE [ v |-> w, d |-> h, calls |-> t.calls, n |-> t.n + 1,
         soft |-> Filled(T, r)
                  \cup { y \in DOMAIN lens.map : Reads(lens.map[y]) \cap t.soft # {} },
         lac |-> t.lac \o [ i \in DOMAIN on |-> LacunaOut(on[i], t.d, r, w) ],
         st |-> IF Blurred(lens, t, old, T) THEN "unsure" ELSE t.st ]

RECURSIVE Grows(_, _, _)
\* An optional field that is absent has one type before and another after:
\* once lenses have asked whether it is there, the evaluator may be confused.
Grows(old, T, d) ==
  \E x \in DOMAIN old.f \cap DOMAIN T.f :
    IF x \notin DOMAIN d.m THEN old.f[x].t # T.f[x].t
    ELSE old.f[x].t.k = "st" /\ T.f[x].t.k = "st" /\ IsObj(d.m[x]) /\ Grows(old.f[x].t, T.f[x].t, d.m[x])

\* A step up within a major version: the data stays.
MinorStep(lin, t, w) ==
  LET T == TypeOf(lin, w)
      old == TypeOf(lin, t.v) IN
  IF ~Valid(T, t.d)
  THEN Fail(t)
  ELSE [t EXCEPT !.v = w, !.d = Hydrate(T, t.d), !.soft = t.soft \cup Filled(T, t.d), !.n = t.n + 1,
                 !.st = IF \/ \E x \in t.soft : x \in DOMAIN T.f /\ x \in DOMAIN old.f /\ T.f[x].t # old.f[x].t
                           \/ t.n > 0 /\ Grows(old, T, t.d)
                        THEN "unsure" ELSE t.st]

Step(lin, t, w) ==
  IF t.v[1] = w[1] /\ VLess(t.v, w) THEN MinorStep(lin, t, w)
  ELSE LET S == { i \in DOMAIN lin.lenses : lin.lenses[i].from = t.v /\ lin.lenses[i].to = w } IN
       IF Cardinality(S) # 1 THEN Fail(t)
       ELSE LET u == LensStep(lin, lin.lenses[CHOOSE i \in S : TRUE], t, w) IN
            \* with lenses missing or superfluous, an implementation may refuse
            IF LensesComplete(lin) \/ u.st \in { "fail", "blurred" } THEN u ELSE [u EXCEPT !.st = "unsure"]

NextVer(lin, v, to) == IF VLess(to, v) THEN PredecessorOf(lin, v) ELSE SuccessorOf(lin, v)

RECURSIVE Walk(_, _, _)
Walk(lin, t, to) ==
  IF t.st \in { "fail", "lost", "blurred" } \/ t.v = to THEN t
  ELSE LET w == NextVer(lin, t.v, to)
           u == Step(lin, t, w) IN
       Walk(lin, IF u.st = "fail" /\ w # to THEN Lost(u) ELSE u, to)

Start(h) == [v |-> h.v, d |-> h.d, soft |-> h.soft, lac |-> << >>, st |-> "run", calls |-> << >>, n |-> h.n]

\* With lenses written in CUE.
CueTranslate(lin, h, to) == Walk(lin, Start(h), to)

---------------------------------------------------------------------------
(* With lenses written in Go: the data of an instance is what the lens     *)
(* returned, nothing is filled in, and steps within a major version going  *)
(* up only relabel the instance.  Lenses are functions: each is called     *)
(* exactly once, with the instance as translated so far, and what it       *)
(* returns is only accepted if it is an instance of the schema it claims   *)
(* to lead to.                                                             *)

GoLensOf(lin, v, w) == lin.gl[CHOOSE i \in DOMAIN lin.gl : lin.gl[i].from = v /\ lin.gl[i].to = w]

GoStep(lin, t, w) ==
  IF t.v[1] = w[1] /\ VLess(t.v, w) THEN [t EXCEPT !.v = w]
  ELSE LET g == GoLensOf(lin, t.v, w)
           u == [t EXCEPT !.calls = Append(t.calls, << t.v, w >>)] IN
       IF g.beh # "ok" \/ \E y \in DOMAIN g.map : ~Evaluable(g.map[y], t.d) THEN Fail(u)
       ELSE LET r == LensEval(g.map, t.d) IN
            IF Valid(TypeOf(lin, w), r) THEN [u EXCEPT !.v = w, !.d = r] ELSE Fail(u)

RECURSIVE GoWalk(_, _, _)
GoWalk(lin, t, to) ==
  IF t.st = "fail" \/ t.v = to THEN t
  ELSE GoWalk(lin, GoStep(lin, t, NextVer(lin, t.v, to)), to)

---------------------------------------------------------------------------

\* Translate instance h = [v, d, soft] to version to.
Translate(lin, h, to) ==
  IF Len(lin.gl) > 0 THEN GoWalk(lin, Start(h), to) ELSE CueTranslate(lin, h, to)

\* To the next version.
AsSuccessor(lin, h) ==
  LET w == SuccessorOf(lin, h.v) IN
  IF w[1] = h.v[1] THEN [Start(h) EXCEPT !.v = w] ELSE Translate(lin, h, w)

AsPredecessor(lin, h) == Translate(lin, h, PredecessorOf(lin, h.v))

---------------------------------------------------------------------------
(* Version multiplexing: data of any version in, an instance of version v  *)
(* out.  Data that is an instance of v is taken as it is; otherwise it is  *)
(* taken as an instance of the newest schema that accepts it.              *)

Mux(lin, v, d) ==
  IF Accepts(lin, v, d) THEN Start([v |-> v, d |-> d, soft |-> {}, n |-> 0])
  ELSE LET w == NewestAcceptor(lin, d) IN
       IF w = NoVer THEN [Fail(Start([v |-> v, d |-> d, soft |-> {}, n |-> 0])) EXCEPT !.st = "invalid"]
       ELSE Translate(lin, [v |-> w, d |-> d, soft |-> {}, n |-> 0], v)
=============================================================================
