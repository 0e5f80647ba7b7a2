------------------------------- MODULE MCBind -------------------------------
(***************************************************************************)
(* All placements of a lineage in a program, with ways to generate its     *)
(* bindings; one program each.                                             *)
(***************************************************************************)
EXTENDS Project, Ship, Json, SequencesExt

Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Lin(n) == [Base EXCEPT !.lenses = << L10, L20, L12, L32 >>, !.name = n]

VARIABLES place, done
MInit == place \in Placements({ NoPkg, "app", "lin", "mod", "other" }) /\ done = FALSE
MNext == ~done /\ done' = TRUE /\ UNCHANGED place
MSpec == MInit /\ [][MNext]_<< place, done >>

Loads == Finds(place) /\ NeedsTelling(place)

Words(p) ==
  "lin=" \o ToString(p.lin) \o (IF p.cue = None THEN "" ELSE " cue=" \o ToString(p.cue)) \o (IF p.pkg = NoPkg THEN "" ELSE " pkg=" \o p.pkg)
  \o (IF p.dir THEN " dir" ELSE "") \o (IF p.at THEN " at" ELSE "")
Names == << "lin", "fooBar", "Thing" >>
Ways == << "", "suffix", "private pkg", "", "suffix private", "noembed", "nofs suffix", "stdout", "lib", "lib suffix title", "lib private noembed" >>
\* Few placements at first: those that differ in where things are.
Some == IF Deep THEN Placements({ NoPkg, "app", "lin", "mod", "other" })
        ELSE { p \in Placements({ NoPkg, "app", "lin", "other" }) : p.at = (p.lin = 1) /\ (p.dir \/ p.pkg \in { NoPkg, "other" }) }
I32 == [k |-> "b", n |-> "i32"]
Bool == [k |-> "b", n |-> "bool"]
\* A lineage whose schemas the types generated for them can be bound to, at
\* each of its versions or the one by default.
Typed == LET T1 == S(("a" :> Rq(Str)) @@ ("b" :> Ot(I32)))
             T2 == S(T1.f @@ ("c" :> Ot(Bool)))
             T3 == S(T2.f @@ ("d" :> Rq(Str)))
             T4 == S(T3.f @@ ("e" :> Ot(Str)))
             Keep(to, from, m) == [to |-> to, from |-> from, map |-> m, lac |-> << >>]
             AA == Cp("a") IN
         [name |-> "fooBar", join |-> [none |-> TRUE], gl |-> << >>, skip |-> FALSE,
          schemas |-> << [v |-> << 0, 0 >>, t |-> T1], [v |-> << 0, 1 >>, t |-> T2], [v |-> << 1, 0 >>, t |-> T3], [v |-> << 1, 1 >>, t |-> T4] >>,
          lenses |-> << Keep(<< 0, 0 >>, << 0, 1 >>, "a" :> AA), Keep(<< 0, 1 >>, << 1, 0 >>, "a" :> AA),
                        Keep(<< 1, 0 >>, << 0, 1 >>, ("a" :> AA) @@ ("d" :> K(At("s:a")))),
                        Keep(<< 1, 0 >>, << 1, 1 >>, ("a" :> AA) @@ ("d" :> Cp("d"))) >>]
TypedWays == << "typed suffix", "typed lib suffix", "typed lib", "typed private", "typed lib suffix title", "typed suffix private pkg" >>
TypedOps == [i \in 1..10 |->
  LET o == [e |-> "gobind", L |-> "L", s2 |-> "lin=1 cue=0 pkg=lin dir", k |-> TypedWays[((i - 1) % Len(TypedWays)) + 1],
            d |-> Doc(("a" :> At("s:a")) @@ (IF i % 2 = 0 THEN "d" :> At("s:a") ELSE "c" :> At("b:true")))] IN
  IF i % 5 = 0 THEN o ELSE [v |-> Typed.schemas[i % 5].v] @@ o]

ASSUME ndJsonSerialize(IOEnv.OUT,
  [i \in DOMAIN TypedOps |-> [id |-> "t" \o ToString(i), ops |-> << [e |-> "bind", L |-> "L", lin |-> Typed], TypedOps[i] >>]] \o
  LET s == SetToSeq(Some) IN
  [i \in DOMAIN s |-> [id |-> "b" \o ToString(i), ops |-> <<
     [e |-> "bind", L |-> "L", lin |-> Lin(Names[(i % 3) + 1])],
     [e |-> "gobind", L |-> "L", s2 |-> Words(s[i]), k |-> Ways[(i % Len(Ways)) + 1], d |-> Docs[(i % Len(Docs)) + 1]] >>]])
=============================================================================
