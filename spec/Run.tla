--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* Runs programs of Thema operations: every case of a set of Cases has a   *)
(* script, a sequence of operations, and the model executes each of them   *)
(* step by step.  The laws below are what the specification is for: they   *)
(* are checked in every state that is reached.                             *)
(*                                                                         *)
(* The same scripts are written to the file named by OUT, and the driver   *)
(* executes them against the real code; what it records is then checked    *)
(* against Thema by the module Trace.                                      *)
(*                                                                         *)
(* An operation is a record with the fields e (its name), and as it needs  *)
(* them L, L2, h, h2, v, d, lin, k, in.                                    *)
(***************************************************************************)
EXTENDS Thema, Json, IOUtils, SequencesExt

CONSTANTS
  Cases,      \* the cases
  Script(_)   \* the operations of a case

VARIABLES case, pc
rvars == << lins, hs, out, case, pc >>

RInit == Init /\ case \in Cases /\ pc = 1

Skip == UNCHANGED vars

Bound(op)  == op.L \in DOMAIN lins
Held(op)   == op.h \in DOMAIN hs

Do(op) ==
  CASE op.e = "bind"      -> Bind(op.L, op.lin)
    [] op.e = "validate"  -> IF Bound(op) THEN Validate(op.L, op.v, op.d, op.h2) ELSE Skip
    [] op.e = "any"       -> IF Bound(op) THEN ValidateAny(op.L, op.d, op.h2) ELSE Skip
    [] op.e = "translate" -> IF Held(op) THEN DoTranslate(op.h, op.v, op.h2) ELSE Skip
    [] op.e = "succ"      -> IF Held(op) /\ hs[op.h].v # Latest(LinOf(op.h)) THEN DoSucc(op.h, op.h2) ELSE Skip
    [] op.e = "pred"      -> IF Held(op) /\ hs[op.h].v # First(LinOf(op.h)) THEN DoPred(op.h, op.h2) ELSE Skip
    [] op.e = "hydrate"   -> IF Held(op) THEN DoHydrate(op.h, op.h2) ELSE Skip
    [] op.e = "dehydrate" -> IF Held(op) THEN DoDehydrate(op.h, op.h2) ELSE Skip
    [] op.e = "observe"   -> IF Held(op) THEN Observe(op.h) ELSE Skip
    [] op.e = "reval"     -> IF Held(op) THEN Revalidate(op.h, op.v) ELSE Skip
    [] op.e = "mux"       -> IF Bound(op) THEN DoMux(op.L, op.v, op.d) ELSE Skip
    [] op.e = "nav"       -> IF Bound(op) THEN Nav(op.L) ELSE Skip
    [] op.e = "lookup"    -> IF Bound(op) THEN Lookup(op.L, op.v) ELSE Skip
    [] op.e = "append"    -> IF Bound(op) /\ op.L2 \in DOMAIN lins THEN CheckAppend(op.L, op.L2) ELSE Skip

RNext ==
  /\ pc <= Len(Script(case))
  /\ Do(Script(case)[pc])
  /\ pc' = pc + 1
  /\ UNCHANGED case

RSpec == RInit /\ [][RNext]_rvars

\* The scripts, for the driver.
Written ==
  ndJsonSerialize(IOEnv.OUT,
    LET s == SetToSeq(Cases) IN [i \in DOMAIN s |-> [id |-> "c" \o ToString(i), ops |-> Script(s[i])]])

---------------------------------------------------------------------------
(* Laws *)

\* A version that only adds keeps accepting the data of the versions before
\* it in its major version, once that has its defaults filled in.
BackwardLaw ==
  \A h \in DOMAIN hs :
    LET lin == LinOf(h) v == hs[h].v IN
    ~lin.skip =>
      \A w \in Versions(lin) :
        w[1] = v[1] /\ VLess(v, w) => Accepts(lin, w, Hydrate(TypeOf(lin, v), hs[h].d))

RECURSIVE OptDefault(_)
\* The type has an optional field with a default: written down it can be taken
\* out, but it is not filled in again.
OptDefault(T) ==
  CASE T.k = "st" -> \E x \in DOMAIN T.f : (T.f[x].p = "o" /\ T.f[x].t.k = "df") \/ OptDefault(T.f[x].t)
    [] T.k = "ol" -> OptDefault(T.e)
    [] T.k = "df" -> OptDefault(T.t)
    [] OTHER -> FALSE

\* Filling in and taking out defaults.
HydrateLaw ==
  \A h \in DOMAIN hs :
    LET T == TypeOf(LinOf(h), hs[h].v)
        d == hs[h].d
        y == Hydrate(T, d)
        z == Dehydrate(T, d) IN
    /\ Valid(T, y) /\ Valid(T, z)
    /\ Hydrate(T, y) = y
    /\ Dehydrate(T, z) = z
    /\ OptDefault(T) \/ Hydrate(T, z) = y

\* Translation: staying is the identity; going further continues from where
\* one got; and the result never is something other than an instance of the
\* version that was asked for.
TranslateLaw ==
  \A h \in DOMAIN hs :
    LET lin == LinOf(h) v == hs[h].v IN
    /\ LET t == Translate(lin, hs[h], v) IN t.v = v /\ t.d = hs[h].d /\ t.lac = << >> /\ t.st = "run"
    /\ \A w \in Versions(lin) :
         LET t == Translate(lin, hs[h], w) IN
         t.st = "run" =>
           /\ t.v = w /\ Valid(TypeOf(lin, w), t.d)
           /\ \A x \in Versions(lin) :
                (VLess(v, w) /\ VLess(w, x)) \/ (VLess(x, w) /\ VLess(w, v)) =>
                  LET u == Translate(lin, hs[h], x)
                      s == Translate(lin, [t EXCEPT !.lac = << >>], x) IN
                  (u.st = "run" /\ s.st = "run") => u.d = s.d /\ u.lac = t.lac \o s.lac

\* Data of unknown version belongs to the oldest schema that accepts it, and
\* multiplexing gives an instance of the version asked for, or nothing.
AttributionLaw ==
  \A h \in DOMAIN hs :
    LET lin == LinOf(h) d == hs[h].d v == OldestAcceptor(lin, d) IN
    /\ v # NoVer /\ Accepts(lin, v, d) /\ ~VLess(hs[h].v, v)
    /\ \A w \in Versions(lin) :
         LET t == Mux(lin, w, d) IN
         /\ t.st # "invalid"
         /\ t.st = "run" => t.v = w /\ Valid(TypeOf(lin, w), t.d)

\* The schemas of a lineage are in one line.
OrderLaw ==
  \A L \in DOMAIN lins :
    LET lin == lins[L] IN
    /\ First(lin) = << 0, 0 >>
    /\ \A i, j \in 1..N(lin) : i < j <=> VLess(Ver(lin, i), Ver(lin, j))
    /\ \A v \in Versions(lin) :
         /\ SuccessorOf(lin, v) # NoVer => PredecessorOf(lin, SuccessorOf(lin, v)) = v
         /\ LatestInMajor(lin, v)[1] = v[1] /\ ~VLess(LatestInMajor(lin, v), v)
         /\ LatestInMajor(lin, v) = Latest(lin)
            \/ SuccessorOf(lin, LatestInMajor(lin, v)) = << v[1] + 1, 0 >>

\* Unless checks are switched off, the numbering says what changed.
CompatLaw ==
  \A L \in DOMAIN lins :
    ~lins[L].skip =>
      \A i \in 2..N(lins[L]) :
        Compat(TypeAt(lins[L], i - 1), TypeAt(lins[L], i))
          \in { IF Ver(lins[L], i)[2] = 0 THEN "n" ELSE "y", "?" }

\* Lenses in Go are there exactly where they are needed.
GoLensLaw ==
  \A L \in DOMAIN lins :
    Len(lins[L].gl) > 0 => LensIds(lins[L].gl) = NeededLenses(lins[L]) /\ Len(lins[L].gl) = Cardinality(NeededLenses(lins[L]))

\* A lineage may always be replaced by itself, and append-only is transitive.
AppendLaw ==
  \A L \in DOMAIN lins :
    /\ AppendOnly(lins[L], lins[L])
    /\ \A M, K \in DOMAIN lins :
         AppendOnly(lins[L], lins[M]) /\ AppendOnly(lins[M], lins[K]) => AppendOnly(lins[L], lins[K])
=============================================================================
