-------------------------------- MODULE MCGo --------------------------------
(***************************************************************************)
(* All small schemas against all small Go types.                           *)
(***************************************************************************)
EXTENDS GoSmall, Json, FiniteSets, SequencesExt

Basic == { G(n) : n \in GoInts \cup { "string", "bool", "float64", "float32", "any" } }
Few   == { G("string"), G("int64"), G("int8"), G("bool"), G("any") }
Structs1 == { GSt(<< >>) } \cup { GSt("b" :> GF(t)) : t \in Few }
            \cup { GSt(("b" :> GF(t)) @@ ("c" :> GF(u))) : t \in Few, u \in Few }
            \cup { GSt(("k" :> GF(G("string"))) @@ ("b" :> GF(G("int64")))) }
Shapes == Basic \cup Structs1 \cup { GSl(t) : t \in Few } \cup { GAr(n, t) : n \in 0..2, t \in Few } \cup { GMp(t) : t \in Few }
          \cup { GPt(t) : t \in { G("string"), G("int8"), G("int64") } \cup { GSt("b" :> GF(G("string"))) } }
          \cup (IF Deep THEN { GSl(t) : t \in Structs1 } \cup { GSl(GSl(t)) : t \in Few } ELSE {})

Types == CTypes \cup { B(n) : n \in { "u32", "i16", "i32", "float", "pos" } }
         \cup { Df(B("i32"), A("n:1")), Df(B("u8"), A("n:1")), E(<< "n:1" >>), E(<< "n:300", "n:1" >>), E(<< "n:-1", "n:0" >>), E(<< "b:true" >>),
                CL(<< B("str"), B("str") >>), CL(<< B("i32"), B("i8") >>), CL(<< B("i8"), B("i32") >>), CL(<< B("str"), E(<< "s:a" >>) >>), CL(<< B("str"), B("bool") >>), OL(B("u8")), OL(B("i8")), OL(St("b" :> R(B("str")))), CL(<< >>) }

\* The struct with the field, one without any, one with one too many, and one
\* under another name.
Goes == LET S == Shapes IN
        { GSt("a" :> GF(t)) : t \in S } \cup { GPt(GSt("a" :> GF(t))) : t \in Few }
        \cup { GSt(<< >>), GSt(("a" :> GF(G("string"))) @@ ("b" :> GF(G("string")))), GSt(("a" :> GF(G("any"))) @@ ("b" :> GF(G("any")))),
               GSt("b" :> GF(G("any"))), G("string"), G("any"), GSl(G("string")), GMp(G("any")) }

Cases == { << p, t >> : p \in { "r", "o" }, t \in Types }
Whole(c) == St("a" :> [p |-> c[1], t |-> c[2]])
Docs == VDocs \cup { Ob("a" :> Ar(<< A("s:a"), A("s:b") >>)), Ob("a" :> A("n:70000")), Ob("a" :> A("n:-200")), Ob("a" :> A("n:128")), Ob("a" :> A("n:255")),
                     Ob("a" :> A("n:127")), Ob("a" :> A("n:-128")), Ob("a" :> A("n:-129")), Ob("a" :> Ar(<< A("n:255") >>)),
                     Ob("a" :> A("n:32768")), Ob("a" :> A("n:2147483648")), Ob("a" :> Ar(<< Ob("b" :> A("s:a")) >>)) }

Lin(T) == [name |-> "lin", join |-> [none |-> TRUE], schemas |-> << [v |-> << 0, 0 >>, t |-> T] >>, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
Ops(c) == << [e |-> "bind", L |-> "L", lin |-> Lin(Whole(c))] >>
          \o LET s == SetToSeq(Goes) IN [i \in DOMAIN s |-> [e |-> "assign", L |-> "L", v |-> << 0, 0 >>, G |-> s[i]]]

VARIABLES case, pc
MInit == case \in Cases /\ pc = 0
MNext == pc = 0 /\ pc' = 1 /\ UNCHANGED case
MSpec == MInit /\ [][MNext]_<< case, pc >>

\* What fits, fits for all data.
Sound == \A g \in Goes : AssignableTo(Whole(case), g) = "y" =>
           LET h == IF g.g = "ptr" THEN g.e ELSE g IN \A d \in Docs : Valid(Whole(case), d) => Holds(h, d)
\* What does not fit does not for a reason: some data, or the fields differ, or no one Go type will do.
ofKind(t) == IF t.k = "df" THEN t.t ELSE t
Justified == \A g \in Goes : AssignableTo(Whole(case), g) = "n" =>
               LET h == IF g.g = "ptr" THEN g.e ELSE g IN
               \/ h.g # "struct"
               \/ DOMAIN h.f # { "a" }
               \/ \E d \in Docs : Valid(Whole(case), d) /\ ~Holds(h, d)
               \/ ofKind(case[2]).k \in { "u", "st", "cl", "ol", "mp" }
               \/ ofKind(case[2]).k = "b" /\ ofKind(case[2]).n \in { "int", "lt10", "pos", "u32", "num", "float", "null" }
               \/ ofKind(case[2]).k = "e" /\ h.f["a"].t.g \in { "float64", "float32" }
               \/ h.f["a"].t.g \in { "float64", "float32" }

ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq(Cases) IN [i \in DOMAIN s |-> [id |-> "g" \o ToString(i), ops |-> Ops(s[i])]])
=============================================================================
