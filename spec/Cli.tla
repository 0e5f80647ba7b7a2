--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  A command works on a lineage in a file and on data;  *)
(* it either prints a result and succeeds, or prints nothing but an error  *)
(* and fails.  What it does is what the library does.                      *)
(*                                                                         *)
(* c: [k, vt, v, lay, d]: the command; whether a version was given, none   *)
(* was, or something that is none; how the lineage is stored; the data.    *)
(***************************************************************************)
EXTENDS Translate

\* The lineage is not where the command is told to look for it.
Misplaced(c) == c.lay \in { "nofile", "nopath" }

\* There is no telling what the data is.
Unreadable(c) == "form" \in DOMAIN c /\ c.form # "ok"

\* Nothing gets as far as the data.
Unusable(lin, c) ==
  \/ Misplaced(c)
  \/ Unreadable(c)
  \/ c.vt = "bad"
  \/ c.vt = "given" /\ ~HasVer(lin, c.v)
  \/ c.k = "translate" /\ c.vt = "none"

Fresh(v, d) == Start([v |-> v, d |-> d, soft |-> {}, n |-> 0])
CliFail == [st |-> "fail"]

\* The version data is taken for: the one given if it must be that one or fits,
\* else the oldest that fits.
Attributed(lin, c) ==
  IF c.vt = "given" /\ ~HasVer(lin, c.v) THEN NoVer
  ELSE IF c.vt = "given" /\ c.k # "translate"
  THEN IF Accepts(lin, c.v, c.d) THEN c.v ELSE IF c.k = "any" THEN OldestAcceptor(lin, c.d) ELSE NoVer
  ELSE IF c.k = "validate" THEN (IF Accepts(lin, Latest(lin), c.d) THEN Latest(lin) ELSE NoVer)
  ELSE OldestAcceptor(lin, c.d)

\* [st, v, d, lac, ...] as for translations, with the version taken for.
CliOutcome(lin, c) ==
  IF Unusable(lin, c) THEN CliFail
  ELSE LET v == Attributed(lin, c) IN
    IF v = NoVer THEN CliFail
    ELSE CASE c.k \in { "validate", "any" } -> [Fresh(v, c.d) EXCEPT !.v = v]
           [] c.k = "translate" -> Translate(lin, [v |-> v, d |-> c.d, soft |-> {}, n |-> 0], c.v)
           [] c.k = "hydrate" -> [Fresh(v, c.d) EXCEPT !.d = Hydrate(TypeOf(lin, v), c.d)]
           [] c.k = "dehydrate" -> [Fresh(v, c.d) EXCEPT !.d = Dehydrate(TypeOf(lin, v), c.d)]
=============================================================================
