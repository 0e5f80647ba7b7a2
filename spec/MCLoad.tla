------------------------------- MODULE MCLoad -------------------------------
(***************************************************************************)
(* All small trees of files, and all packages that can be asked for.       *)
(***************************************************************************)
EXTENDS Load, TLC, IOUtils, Json, SequencesExt, FiniteSetsExt

Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Kinds == { [dir |-> d, pkg |-> p, imp |-> ""] : d \in { "", "x", "x/y", "_u" }, p \in { "m", "x", "" } }
         \cup { [dir |-> "x", pkg |-> "m", imp |-> "verif.test/m/x"], [dir |-> "", pkg |-> "x", imp |-> "github.com/grafana/thema"],
                [dir |-> "x/y", pkg |-> "x", imp |-> "other.test/q"], [dir |-> "", pkg |-> "m", imp |-> "other.test/q"],
                [dir |-> "cue.mod/pkg/other.test/q", pkg |-> "q", imp |-> ""], [dir |-> "cue.mod/usr/other.test/q", pkg |-> "q", imp |-> ""] }
Names3 == << "a.cue", "b.cue", "c.cue" >>
Tree(ks) == LET s == SetToSeq(ks) IN [i \in DOMAIN s |-> [dir |-> s[i].dir, f |-> Names3[i], pkg |-> s[i].pkg, n |-> "f" \o ToString(i), imp |-> s[i].imp]]
Trees == { Tree(ks) : ks \in UNION { kSubset(n, Kinds) : n \in 1..(IF Deep THEN 3 ELSE 2) } }
Dirs == { "", "x", "x/y", "z", "_u" }
Cmds(t) == { [mod |-> m, dir |-> d, pk |-> p, files |-> t] : m \in { "ok", "flat", "none" }, d \in Dirs, p \in { "", "m", "x", "_" } }

VARIABLES tree, cmd
MInit == tree \in Trees /\ cmd = [mod |-> "none"]
MNext == cmd = [mod |-> "none"] /\ cmd' \in Cmds(tree) /\ UNCHANGED tree
MSpec == MInit /\ [][MNext]_<< tree, cmd >>
Ready == "dir" \in DOMAIN cmd

\* What is loaded has the package asked for, and all of it in that directory.
Exact == Ready => \A i \in DOMAIN cmd.files : LET f == cmd.files[i] IN
           /\ f.dir = cmd.dir /\ f.pkg = Asked(cmd) => f \in Main(cmd)
           /\ f \in Main(cmd) => f.pkg = (IF Asked(cmd) = "_" THEN "" ELSE Asked(cmd))
\* Files of other packages that are not imported make no difference.
Without(c, i) == [c EXCEPT !.files = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Local ==
  Ready => \A i \in DOMAIN cmd.files : LET f == cmd.files[i] c == Without(cmd, i) IN
    Loadable(cmd) /\ There(c) /\ f \notin Main(cmd) \cup UNION { Target(cmd, j) : j \in Reach(cmd, Main(cmd), {}) }
      /\ (\A j \in Reach(cmd, Main(cmd), {}) : Target(c, j) # {})
      => Loadable(c) /\ Loaded(c) = Loaded(cmd)

Op(c) == [e |-> "load", k |-> c.mod, files |-> c.files] @@ (IF c.dir = "" THEN << >> ELSE [s |-> c.dir]) @@ (IF c.pk = "" THEN << >> ELSE [s2 |-> c.pk])
ASSUME ndJsonSerialize(IOEnv.OUT, LET s == SetToSeq(Trees) IN
         [i \in DOMAIN s |-> [id |-> "t" \o ToString(i), ops |-> LET o == SetToSeq({ c \in Cmds(s[i]) : c.mod # "none" \/ (i % 20) = 0 }) IN [j \in DOMAIN o |-> Op(o[j])]]])
=============================================================================
