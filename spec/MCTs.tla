-------------------------------- MODULE MCTs ---------------------------------
(***************************************************************************)
(* All small schemas as TypeScript types, with all small data.             *)
(***************************************************************************)
EXTENDS TsTypes, Small, Json, SequencesExt

Types == CTypes \cup { B(n) : n \in { "u32", "i16", "i32", "float", "pos", "rex", "si", "ns" } } \cup { OL(B("ns")), Mp(B("ns")), OL(St("b" :> R(B("ns")))),
           U(<< B("null"), OL(B("str")) >>), U(<< B("null"), B("int") >>), U(<< B("null"), St("b" :> R(B("str"))) >>), U(<< B("null"), Mp(B("str")) >>),
           St("b" :> R(B("ns"))), U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> O(B("ns")))), St(("k" :> R(E(<< "s:y" >>))) @@ ("c" :> R(B("str")))) >>),
           OL(U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> O(B("ns")))), St(("k" :> R(E(<< "s:y" >>))) @@ ("c" :> R(B("str")))) >>)) }
Cases == { << p, t, d >> : p \in { "r", "o" }, t \in Types, d \in VDocs }
Whole(c) == St("a" :> [p |-> c[1], t |-> c[2]])

Kinds == IF Deep THEN << "", "none", "alias", "root", "alias reuse", "reuse" >> ELSE << "reuse", "alias reuse" >>
Lin(n, T) == [name |-> n, join |-> [none |-> TRUE], schemas |-> << [v |-> << 0, 0 >>, t |-> T] >>, lenses |-> << >>, gl |-> << >>, skip |-> FALSE, form |-> "attrs"]
Ops(p, t) ==
  << [e |-> "bind", L |-> "K", lin |-> Lin("other", St("b" :> R(B("str"))))], [e |-> "bind", L |-> "L", lin |-> Lin("fooBar", Whole(<< p, t >>))] >>
  \o [j \in DOMAIN Kinds |-> [e |-> "tstypes", L |-> "K", v |-> << 0, 0 >>, k |-> Kinds[j], d |-> Ob("b" :> A("s:x"))]]
  \o LET s == SetToSeq(VDocs) IN FlattenSeq([i \in DOMAIN s |-> [j \in DOMAIN Kinds |-> [e |-> "tstypes", L |-> "L", v |-> << 0, 0 >>, k |-> Kinds[j], d |-> s[i]]]])

VARIABLES case, pc
MInit == case \in Cases /\ pc = 0
MNext == pc = 0 /\ pc' = 1 /\ UNCHANGED case
MSpec == MInit /\ [][MNext]_<< case, pc >>

\* Instances with their defaults filled in are never refused, and are what
\* allowed data is, but for ranges and patterns.
Faithful ==
  LET T == Whole(case) a == TsAllowed(T, case[3], FALSE) IN
  /\ Valid(T, case[3]) /\ Hydrate(T, case[3]) = case[3] => a # "n"
  /\ a = "y" => Valid(T, case[3]) /\ Hydrate(T, case[3]) = case[3]
\* The defaults are what Hydrate adds to the empty document.
Defaults == LET T == Whole(case) IN
  TsGenerable(T) => \A x \in Defaulted(T) : case[1] = "r" => Hydrate(T, Ob(<< >>)).m[x] = TsDefaults(T).m[x]

ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq({ "r", "o" } \X Types) IN [i \in DOMAIN s |-> [id |-> "t" \o ToString(i), ops |-> Ops(s[i][1], s[i][2])]])
=============================================================================
