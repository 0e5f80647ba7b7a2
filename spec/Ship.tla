--------------------------------- MODULE Ship --------------------------------
(***************************************************************************)
(* A lineage of four versions, with lenses in CUE or Go, right or wrong,   *)
(* and some documents: the small world in which programs are explored.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

K(d)   == [x |-> "k", d |-> d]
Cp(p)  == [x |-> "cp", p |-> << p >>]
Op(p)  == [x |-> "op", p |-> << p >>]
Eq(p, v, d, e) == [x |-> "eq", p |-> << p >>, v |-> v, d |-> d, e |-> e]
Lac(ty, c, p, sp, tp) == [ty |-> ty, msg |-> "m" \o ToString(ty), c |-> c, p |-> p, v |-> "", sp |-> sp, tp |-> tp]
LacEq(ty, p, v, sp, tp) == [ty |-> ty, msg |-> "q" \o ToString(ty), c |-> "eq", p |-> p, v |-> v, sp |-> sp, tp |-> tp]
Str  == [k |-> "b", n |-> "str"]
IntT == [k |-> "b", n |-> "int"]
Rq(t) == [p |-> "r", t |-> t]
Ot(t) == [p |-> "o", t |-> t]
At(a) == [a |-> a]
Def1 == [k |-> "df", t |-> IntT, dv |-> At("n:1")]
AB   == [k |-> "e", s |-> << "s:a", "s:b" >>]
ABC  == [k |-> "e", s |-> << "s:a", "s:b", "s:c" >>]
S(f) == [k |-> "st", f |-> f]
Doc(m) == [m |-> m]

Schemas4 == <<
  [v |-> << 0, 0 >>, t |-> S(("title" :> Rq(Str)) @@ ("n" :> Rq(Def1)))],
  [v |-> << 0, 1 >>, t |-> S(("title" :> Rq(Str)) @@ ("n" :> Rq(Def1)) @@ ("tag" :> Ot(AB)))],
  [v |-> << 1, 0 >>, t |-> S(("header" :> Rq(Str)) @@ ("n" :> Rq(Def1)) @@ ("tag" :> Rq(AB)))],
  [v |-> << 1, 1 >>, t |-> S(("header" :> Rq(Str)) @@ ("n" :> Rq(Def1)) @@ ("tag" :> Rq(ABC)) @@ ("x" :> Ot(S("y" :> Rq(Def1)))))] >>

L10  == [from |-> << 0, 1 >>, to |-> << 0, 0 >>, map |-> ("title" :> Cp("title")) @@ ("n" :> Cp("n")),
         lac |-> << Lac(3, "has", << "tag" >>, << "tag" >>, << >>) >>]
L20  == [from |-> << 1, 0 >>, to |-> << 0, 1 >>, map |-> ("title" :> Cp("header")) @@ ("n" :> Cp("n")) @@ ("tag" :> Op("tag")), lac |-> << >>]
L12  == [from |-> << 0, 1 >>, to |-> << 1, 0 >>, map |-> ("header" :> Cp("title")) @@ ("n" :> Cp("n")) @@ ("tag" :> K(At("s:a"))),
         lac |-> << Lac(1, "always", << >>, << >>, << "tag" >>), Lac(2, "has", << "tag" >>, << "tag" >>, << "tag" >>),
                    LacEq(2, << "title" >>, "s:p", << "title" >>, << "header" >>) >>]
L32  == [from |-> << 1, 1 >>, to |-> << 1, 0 >>,
         map |-> ("header" :> Cp("header")) @@ ("n" :> Cp("n")) @@ ("tag" :> Eq("tag", "s:c", At("s:b"), At("s:a"))),
         lac |-> << LacEq(3, << "tag" >>, "s:c", << "tag" >>, << "tag" >>), Lac(4, "has", << "x" >>, << "x" >>, << >>) >>]

\* a lens that fails for some data
L32Bad == [L32 EXCEPT !.map = [@ EXCEPT !["tag"] = Eq("tag", "s:c", At("s:zz"), At("s:a"))]]

G(l, b) == [from |-> l.from, to |-> l.to, beh |-> b, map |-> l.map]

Base == [name |-> "lin", join |-> [none |-> TRUE], schemas |-> Schemas4, lenses |-> << >>, gl |-> << >>, skip |-> FALSE]
WLin ==
  CASE IOEnv.WORLD = "cue"    -> [Base EXCEPT !.lenses = << L10, L20, L12, L32 >>]
    [] IOEnv.WORLD = "bad"    -> [Base EXCEPT !.lenses = << L10, L20, L12, L32Bad >>]
    [] IOEnv.WORLD = "go"     -> [Base EXCEPT !.gl = << G(L32, "ok"), G(L10, "ok"), G(L12, "ok"), G(L20, "ok") >>]
    [] IOEnv.WORLD = "gobad"  -> [Base EXCEPT !.gl = << G(L32Bad, "ok"), G(L10, "ok"), G(L12, "wrong"), G(L20, "ok") >>]

Docs == << Doc("title" :> At("s:p")), Doc(("title" :> At("s:q")) @@ ("n" :> At("n:1")) @@ ("tag" :> At("s:b"))),
           Doc(("header" :> At("s:p")) @@ ("n" :> At("n:7")) @@ ("tag" :> At("s:c"))),
           Doc(("header" :> At("s:q")) @@ ("tag" :> At("s:a")) @@ ("x" :> Doc(<< >>))),
           Doc("title" :> At("n:1")) >>

Vs == { Schemas4[i].v : i \in 1..4 }
=============================================================================
