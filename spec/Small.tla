-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* Small types and small data, from which the exhaustive cases are made.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

B(n)   == [k |-> "b", n |-> n]
E(s)   == [k |-> "e", s |-> s]
Df(t, d) == [k |-> "df", t |-> t, dv |-> d]
St(f)  == [k |-> "st", f |-> f]
OL(e)  == [k |-> "ol", e |-> e]
CL(s)  == [k |-> "cl", es |-> s]
Mp(e)  == [k |-> "mp", e |-> e]
U(s)   == [k |-> "u", alts |-> s]
R(t)   == [p |-> "r", t |-> t]
O(t)   == [p |-> "o", t |-> t]
A(a)   == [a |-> a]
Ob(m)  == [m |-> m]
Ar(l)  == [l |-> l]

Bounds(q, t) == IF "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1" THEN t ELSE q
Deep == Bounds(FALSE, TRUE)

---------------------------------------------------------------------------
(* All kinds of types *)
CTypes == {
  B("str"), B("int"), B("num"), B("bool"), B("null"), B("any"), B("u8"), B("u16"), B("i8"), B("si"), B("ns"), B("lt10"), B("rex"),
  E(<< "s:a" >>), E(<< "s:a", "s:b" >>), E(<< "s:b", "s:a", "s:c" >>), E(<< "n:1", "n:2" >>),
  Df(B("str"), A("s:a")), Df(B("str"), A("s:b")), Df(B("int"), A("n:1")), Df(E(<< "s:a", "s:b" >>), A("s:a")),
  Df(E(<< "s:a", "s:b", "s:c" >>), A("s:a")),
  St("b" :> R(B("str"))), St("b" :> O(B("str"))), St(("b" :> R(B("str"))) @@ ("c" :> O(B("int")))),
  St(("b" :> R(B("str"))) @@ ("c" :> R(B("int")))), St(("b" :> R(B("int"))) @@ ("c" :> O(B("int")))),
  OL(B("str")), CL(<< B("str"), B("int") >>), CL(<< B("str") >>), Mp(B("int")),
  U(<< St(("k" :> R(E(<< "s:x" >>))) @@ ("b" :> R(B("int")))), St(("k" :> R(E(<< "s:y" >>))) @@ ("c" :> R(B("str")))) >>)
}

---------------------------------------------------------------------------
(* Data, right and wrong, for a struct with a field "a" of such a type *)
VAtoms == { "null", "b:true", "n:0", "n:1", "n:1.5", "n:300", "n:-1", "s:", "s:a", "s:x" }
VData0 == { A(a) : a \in VAtoms }
VData1 == VData0 \cup { Ob(<< >>), Ar(<< >>) } \cup { Ob("b" :> x) : x \in VData0 } \cup { Ar(<< x >>) : x \in VData0 }
          \cup { Ob(("b" :> A("s:a")) @@ ("c" :> x)) : x \in { A("n:1"), A("s:a") } }
          \cup { Ar(<< A("s:a"), x >>) : x \in { A("n:1"), A("s:a") } }
          \cup { Ob(("k" :> A("s:x")) @@ ("b" :> x)) : x \in { A("n:1"), A("s:a") } }
          \cup { Ob(("k" :> A("s:y")) @@ ("c" :> x)) : x \in { A("n:1"), A("s:a") } }
VDocs == { Ob(<< >>) } \cup { Ob("a" :> x) : x \in VData1 } \cup { Ob(("a" :> x) @@ ("zz" :> A("n:1"))) : x \in { A("s:a"), A("n:1") } }
=============================================================================
