-------------------------------- MODULE MCPar --------------------------------
(***************************************************************************)
(* All small programs for two (or three) goroutines on one runtime: the    *)
(* lock protocol is explored for the longest of them, and all are run      *)
(* against the code.                                                       *)
(***************************************************************************)
EXTENDS Small, Json, FiniteSets, SequencesExt

Kinds == { "validate", "any", "translate", "hydrate", "dehydrate", "bind", "nav", "lookup", "assign" }

\* What each operation evaluates: the two schemas (a, b), the lenses (x), the
\* definition of lineages and caches of the context (c).
Secs == [ validate |-> << { "b", "c" } >>, any |-> << { "a", "c" }, { "b", "c" } >>,
          translate |-> << { "x", "c" }, { "x" }, { "x", "a" }, { "a", "c" }, { "x" } >>,
          hydrate |-> << { "b", "c" } >>, dehydrate |-> << { "b", "c" } >>,
          bind |-> << { "c" } >>, assign |-> << { "b", "c" } >>, nav |-> << >>, lookup |-> << >> ]

Progs2 == << << "translate", "validate" >>, << "any", "bind", "hydrate" >> >>
Progs3 == << << "translate" >>, << "any", "bind" >>, << "validate", "dehydrate" >> >>

VARIABLES pc, sec, holder, init, seen
P == INSTANCE Par WITH Progs <- IF Deep THEN Progs3 ELSE Progs2, Sections <- Secs, Cells <- { "a", "b", "x", "c" }
PSpec == P!Spec
Exclusive == P!Exclusive
Alike == P!Alike
Ends == P!Ends

---------------------------------------------------------------------------

Ty(x) == St(("r" :> R(B("rex"))) @@ ("n" :> R(Df(B("int"), A("n:3")))) @@ ("l" :> R(OL(B("u8")))) @@ ("e" :> O(E(<< "s:a", "s:b" >>)))
            @@ ("s" :> R(Df(B("str"), A("s:a")))) @@ x)
Cp(n) == n :> [x |-> "op", p |-> << n >>]
M == Cp("r") @@ Cp("n") @@ Cp("l") @@ Cp("e") @@ Cp("s")
Lin(n) == [name |-> n, join |-> [none |-> TRUE],
           schemas |-> << [v |-> << 0, 0 >>, t |-> Ty(<< >>)], [v |-> << 0, 1 >>, t |-> Ty("o" :> O(B("num")))] >>,
           lenses |-> << [from |-> << 0, 1 >>, to |-> << 0, 0 >>, map |-> M, lac |-> << >>] >>, gl |-> << >>, skip |-> FALSE]
D(i) == Ob(("r" :> A("s:xy")) @@ ("l" :> Ar(<< A("n:1"), A("n:255") >>)) @@ ("o" :> A("n:1.5")) @@ (IF i = 1 THEN "e" :> A("s:a") ELSE "n" :> A("n:70000")))
Bad == Ob(("r" :> A("n:1")) @@ ("l" :> Ar(<< A("s:a") >>)))

\* A Go type for the later schema
G(n) == [g |-> n]
GF(t) == [t |-> t, oe |-> FALSE]
GSt(f) == [g |-> "struct", f |-> f]
Fits == GSt(("r" :> GF(G("string"))) @@ ("n" :> GF(G("any"))) @@ ("l" :> GF([g |-> "slice", e |-> G("any")])) @@ ("e" :> GF(G("string"))) @@ ("s" :> GF(G("string"))) @@ ("o" :> GF(G("float64"))))

New(p, i) == "g" \o ToString(p) \o "n" \o ToString(i)
Op(k, p, i) ==
  [p |-> p, e |-> k, L |-> "L"] @@
  CASE k = "validate" -> [v |-> << 0, 1 >>, d |-> IF i % 2 = 0 THEN D(p % 2) ELSE Bad, h2 |-> New(p, i)]
    [] k = "any" -> [d |-> IF i % 2 = 0 THEN D(p % 2) ELSE Bad, h2 |-> New(p, i)]
    [] k = "translate" -> [h |-> "h" \o ToString(p % 2), v |-> << 0, 0 >>, h2 |-> New(p, i)]
    [] k \in { "hydrate", "dehydrate" } -> [h |-> "h" \o ToString(i % 2), h2 |-> New(p, i)]
    [] k = "bind" -> [lin |-> Lin("other")]
    [] k = "nav" -> << >>
    [] k = "assign" -> [v |-> << 0, 1 >>, G |-> IF i % 2 = 0 THEN Fits ELSE GSt("r" :> GF(G("string")))]
    [] k = "lookup" -> [v |-> << 0, i >>]
Named(o, p, i) == IF o.e = "bind" THEN [o EXCEPT !.L = "B" \o ToString(p) \o "n" \o ToString(i)] ELSE o

Fore == << [e |-> "bind", L |-> "L", lin |-> Lin("lin")],
           [e |-> "validate", L |-> "L", v |-> << 0, 1 >>, d |-> D(0), h2 |-> "h0"],
           [e |-> "validate", L |-> "L", v |-> << 0, 1 >>, d |-> D(1), h2 |-> "h1"] >>
\* Goroutine p runs the operations of prog.
Thread(prog, p) == [i \in DOMAIN prog |-> Named(Op(prog[i], p, i), p, i)]
\* The instances that existed before are made outside, by themselves or not at all.
Scen(progs, cold) ==
  (IF cold THEN << Fore[1] >> ELSE Fore) \o FlattenSeq([p \in DOMAIN progs |-> Thread(progs[p], p)]) \o << [e |-> "observe", L |-> "L", h |-> "h0"] >>

\* All pairs, on schemas that nobody has used so far where that is possible, and all pairs of pairs or triples.
Cold == { "validate", "any", "bind", "nav", "lookup", "assign" }
Pairs == { << << k, j >>, << j, k >> >> : k \in Kinds, j \in Kinds }
Triples == IF Deep THEN { << << k >>, << j >>, << m >> >> : k \in Kinds, j \in Kinds, m \in Kinds } ELSE {}
ColdPairs == { << << k, j >>, << j, k >>, << k >> >> : k \in Cold, j \in Cold }

ASSUME ndJsonSerialize(IOEnv.OUT,
  LET a == SetToSeq(Pairs \cup Triples) b == SetToSeq(ColdPairs) IN
  [i \in DOMAIN a |-> [id |-> "w" \o ToString(i), ops |-> Scen(a[i], FALSE)]] \o [i \in DOMAIN b |-> [id |-> "c" \o ToString(i), ops |-> Scen(b[i], TRUE)]])
=============================================================================
