-------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* Go types for all small schemas.                                         *)
(***************************************************************************)
EXTENDS GoSmall, Json, SequencesExt

Few == { B("str"), B("int"), B("ns"), B("u8"), B("si"), E(<< "s:a", "s:b" >>), Df(B("str"), A("s:a")) }
Alike(t, u) == U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> R(t))), St(("k" :> R(E(<< "s:xy" >>))) @@ ("c" :> O(u))) >>)
Types == { t \in CTypes : t.k # "cl" } \cup { B(n) : n \in { "u32", "i16", "i32", "float", "pos", "sib", "min1" } }
         \cup { OL(t) : t \in Few } \cup { OL(OL(t)) : t \in Few } \cup { Mp(B(n)) : n \in { "str", "int", "num", "bool" } }
         \cup { St("b" :> [p |-> p, t |-> t]) : p \in { "r", "o" }, t \in Few \cup { OL(B("str")), Mp(B("int")) } }
         \cup { OL(St("b" :> [p |-> p, t |-> t])) : p \in { "r", "o" }, t \in Few }
         \cup { St("b" :> O(St("c" :> [p |-> p, t |-> t]))) : p \in { "r", "o" }, t \in Few }
         \cup { E(<< "n:1" >>), E(<< "n:255", "n:1" >>), Alike(B("str"), B("int")), OL(Alike(B("str"), B("int"))), OL(B("u8")) }
         \cup { U(<< B("null"), t >>) : t \in { B("str"), B("int"), B("bool"), OL(B("str")), Mp(B("int")), St("b" :> R(B("str"))), St("b" :> O(B("int"))), OL(U(<< B("null"), B("int") >>)) } }

Opts == IF Deep THEN << "", "flat", "root", "none", "pkg", "decl", "flat decl", "flat root", "group", "flat group" >> ELSE << "", "flat", "group" >>
Lin(T) == [name |-> "lin", join |-> [none |-> TRUE], schemas |-> << [v |-> << 0, 0 >>, t |-> T] >>, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
Cases == { << p, t >> : p \in { "r", "o" }, t \in Types }
Whole(c) == St("a" :> [p |-> c[1], t |-> c[2]])
Ops(c) == << [e |-> "bind", L |-> "L", lin |-> Lin(Whole(c))] >>
          \o [i \in DOMAIN Opts |-> [e |-> "gotypes", L |-> "L", v |-> << 0, 0 >>, k |-> Opts[i]]]

\* What the generator should make of a type, as far as GenOK says.
RECURSIVE Gen(_, _)
Gen(T, flat) ==
  LET null(t) == Fits(t, [a |-> "null"])
      ref(p, t) == LET g == Gen(t, flat) IN
                   IF ~flat /\ (p = "o" \/ null(t)) /\ g.g \notin { "slice", "map", "any" } THEN GPt(g) ELSE g IN
  CASE T.k = "df" -> Gen(T.t, flat)
    [] Mixed(T) -> G("any")
    [] T.k = "e" -> G(IF Kind(T.s[1]) = "str" THEN "string" ELSE "int")
    [] OrNull(T) -> Gen(T.alts[2], flat)
    [] T.k = "ol" -> GSl(Gen(T.e, flat))
    [] T.k = "mp" -> GMp(Gen(T.e, flat))
    [] T.k = "st" -> GSt([x \in DOMAIN T.f |-> [t |-> ref(T.f[x].p, T.f[x].t), oe |-> T.f[x].p = "o" /\ ~null(T.f[x].t)]])
    [] OTHER -> CASE T.n \in { "str", "rex", "min1", "ns" } -> G("string")
                  [] T.n = "bool" -> G("bool")
                  [] T.n \in { "num", "float" } -> G("float64")
                  [] T.n \in { "any", "null" } -> G("any")
                  [] OTHER -> G("int64")

VARIABLES case, pc
MInit == case \in Cases /\ pc = 0
MNext == pc = 0 /\ pc' = 1 /\ UNCHANGED case
MSpec == MInit /\ [][MNext]_<< case, pc >>

\* There is an answer to all of them,
Answered == \A flat \in BOOLEAN : Generable(Whole(case)) /\ GenOK(Whole(case), Gen(Whole(case), flat), flat)
\* and what is right for a schema can hold all its instances.
Deeper == VDocs \cup { Ob("a" :> Ob("b" :> x)) : x \in VData1 } \cup { Ob("a" :> Ar(<< x >>)) : x \in VData1 }
Near(g) == { g } \cup { GSt("a" :> [t |-> t, oe |-> FALSE]) : t \in { G(n) : n \in GoInts \cup { "string", "bool", "float64", "float32", "any" } } \cup
                        { GPt(G("string")), GSl(G("string")), GSl(G("any")), GMp(G("int64")), GSt("b" :> GF(G("string"))), GSt("b" :> GF(GPt(G("string")))) } }
\* (A null among the elements of a list of strings is lost.)
RECURSIVE NullsIn(_)
NullsIn(d) == IF IsArr(d) THEN \E i \in DOMAIN d.l : d.l[i] = [a |-> "null"] \/ NullsIn(d.l[i])
              ELSE IF IsObj(d) THEN \E x \in DOMAIN d.m : NullsIn(d.m[x])
              ELSE FALSE
HoldsAll == \A g \in Near(Gen(Whole(case), FALSE)) : GenOK(Whole(case), g, FALSE) => \A d \in Deeper : Valid(Whole(case), d) /\ ~NullsIn(d) => Holds(g, d)

ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq(Cases) IN [i \in DOMAIN s |-> [id |-> "t" \o ToString(i), ops |-> Ops(s[i])]])
=============================================================================
