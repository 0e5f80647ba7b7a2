-------------------------------- MODULE MCDer --------------------------------
(***************************************************************************)
(* All small schemas as JSON Schema and OpenAPI, with all small data.      *)
(***************************************************************************)
EXTENDS Derive, Small, Json, SequencesExt

Types == CTypes \cup { B(n) : n \in { "u32", "i16", "i32", "float", "pos" } } \cup { OL(B("ns")), Mp(B("ns")), OL(St("b" :> R(B("ns")))),
           St("b" :> R(B("ns"))), U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> O(B("ns")))), St(("k" :> R(E(<< "s:y" >>))) @@ ("c" :> R(B("str")))) >>),
           U(<< B("null"), OL(B("str")) >>), U(<< B("null"), OL(B("ns")) >>), U(<< B("null"), OL(St("b" :> R(B("ns")))) >>), U(<< B("null"), St("b" :> O(B("ns"))) >>), U(<< B("null"), Mp(B("str")) >>),
           OL(U(<< B("null"), OL(B("str")) >>)), St("b" :> R(U(<< B("null"), OL(B("str")) >>))), U(<< B("null"), B("int") >>), U(<< B("str"), OL(B("str")) >>), U(<< B("null"), B("bool") >>),
           OL(U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> O(B("ns")))), St(("k" :> R(E(<< "s:y" >>))) @@ ("c" :> R(B("str")))) >>)) }
Cases == { << p, t, d >> : p \in { "r", "o" }, t \in Types, d \in VDocs }
Whole(c) == St("a" :> [p |-> c[1], t |-> c[2]])

Kinds == IF Deep THEN << "json", "openapi", "group", "expand" >> ELSE << "json", "openapi" >>
Lin(T) == [name |-> "lin", join |-> [none |-> TRUE], schemas |-> << [v |-> << 0, 0 >>, t |-> T] >>, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
Docs == VDocs \cup { Ob("a" :> Ar(<< A("null"), Ar(<< A("s:x") >>) >>)), Ob("a" :> Ob("b" :> Ar(<< A("s:x"), A("null") >>))), Ob("a" :> Ob("b" :> Ar(<< A("s:x") >>))), Ob("a" :> Ar(<< Ob("b" :> A("s:x")) >>)), Ob("a" :> Ar(<< Ob("b" :> A("null")) >>)), Ob("a" :> Ob(("k" :> A("s:x")) @@ ("b" :> A("null")))), Ob("a" :> Ar(<< Ob(("k" :> A("s:x")) @@ ("b" :> A("null"))) >>)) }
Ops(p, t) ==
  << [e |-> "bind", L |-> "L", lin |-> Lin(Whole(<< p, t >>))] >>
  \o LET s == SetToSeq(Docs) IN FlattenSeq([i \in DOMAIN s |-> [j \in DOMAIN Kinds |-> [e |-> "derive", L |-> "L", v |-> << 0, 0 >>, k |-> Kinds[j], d |-> s[i]]]])

VARIABLES case, pc
MInit == case \in Cases /\ pc = 0
MNext == pc = 0 /\ pc' = 1 /\ UNCHANGED case
MSpec == MInit /\ [][MNext]_<< case, pc >>

\* Instances with their defaults filled in are never refused, and what is
\* surely allowed is an instance.
Faithful ==
  LET T == Whole(case) a == Allowed(T, case[3]) IN
  /\ Valid(T, case[3]) /\ Hydrate(T, case[3]) = case[3] => a # "n"
  /\ a = "y" => Valid(T, case[3]) /\ Hydrate(T, case[3]) = case[3]

ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq({ "r", "o" } \X Types) IN [i \in DOMAIN s |-> [id |-> "d" \o ToString(i), ops |-> Ops(s[i][1], s[i][2])]])
=============================================================================
