-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* Loading a CUE package, and Thema with it, from the files of a module.   *)
(* A file is [dir, f, pkg, n, imp]: its directory and name, its package    *)
(* clause ("" for none), the one field it has, and what it imports ("" for *)
(* nothing).  The field lists the fields of the package imported.          *)
(*                                                                         *)
(* c: [mod, dir, pk, files]: how the module is described, the directory    *)
(* and package asked for ("" for the default).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The directories whose files belong to a package in a directory.
Parent ==
  [d \in { "x", "x/y", "x/y/z", "z", "w", "_u", ".h", "testdata", "x/_v", "cue.mods", "n.n-1" } |->
     CASE d = "x/y/z" -> "x/y" [] d \in { "x/y", "x/_v" } -> "x" [] OTHER -> ""]
RECURSIVE Above(_)
Above(d) == IF d \in { "", "." } THEN { "" } ELSE { d } \cup Above(Parent[d])
BaseOf == [d \in DOMAIN Parent |-> CASE d = "x/y" -> "y" [] d = "x/y/z" -> "z" [] d = "x/_v" -> "_v" [] OTHER -> d]

NotModule == { "none", "empty", "number", "other", "syntax", "blank", "vendored" }
\* ("self" is the module of Thema itself.)
ModBase(m) == CASE m = "flat" -> "verif.test" [] m = "self" -> "thema" [] OTHER -> "m"

Asked(c) == IF c.pk # "" THEN c.pk ELSE IF c.dir \in { "", "." } THEN ModBase(c.mod) ELSE BaseOf[c.dir]

Source(f) == f.f \in { "a.cue", "b.cue", "c.cue", "d.cue", "e.cue", "a.b.cue", "module.cue", "test.cue", "x_y.cue" }
Files(c) == { c.files[i] : i \in { j \in DOMAIN c.files : Source(c.files[j]) } }

\* Files of a package.
Members(c, dir, pkg) == { f \in Files(c) : f.dir \in Above(dir) /\ f.pkg = pkg }
External(c, pkg) == { f \in Files(c) : f.dir \in { "cue.mod/pkg/other.test/q", "cue.mod/gen/other.test/q", "cue.mod/usr/other.test/q" } /\ f.pkg = pkg }

Imports ==
  [i \in { "verif.test/m", "verif.test/m/x", "verif.test/m/x/y", "verif.test/m/z", "verif.test/m/x:m", "verif.test/m:x",
           "verif.test/m/x/y/z", "verif.test/m/testdata" } |->
     CASE i = "verif.test/m" -> << "", "m" >>
       [] i = "verif.test/m/x" -> << "x", "x" >>
       [] i = "verif.test/m/x/y" -> << "x/y", "y" >>
       [] i = "verif.test/m/z" -> << "z", "z" >>
       [] i = "verif.test/m/x/y/z" -> << "x/y/z", "z" >>
       [] i = "verif.test/m/testdata" -> << "testdata", "testdata" >>
       [] i = "verif.test/m/x:m" -> << "x", "m" >>
       [] i = "verif.test/m:x" -> << "", "x" >>]

\* A directory is there if something is in it or below.
Exists(c, dir) == \/ dir \in { "", "." }
                  \/ \E i \in DOMAIN c.files : c.files[i].dir \in DOMAIN Parent /\ dir \in Above(c.files[i].dir)
There(c) == Exists(c, c.dir)

Own == "github.com/grafana/thema"

\* What an import refers to.  (Thema itself has more than the files that are
\* listed, and is always there.)
Target(c, i) ==
  CASE i = "other.test/q" -> External(c, "q")
    [] i = Own -> IF c.mod = "self" THEN Members(c, "", "thema") ELSE {}
    [] i \in DOMAIN Imports /\ c.mod \notin { "flat", "self" } /\ Exists(c, Imports[i][1]) -> Members(c, Imports[i][1], Imports[i][2])
    [] OTHER -> {}

RECURSIVE Reach(_, _, _)
\* The packages that are loaded because of a set of files.
Reach(c, fs, seen) ==
  LET new == { f.imp : f \in fs } \ (seen \cup { "" }) IN
  IF new = {} THEN seen ELSE Reach(c, UNION { Target(c, i) : i \in new }, seen \cup new)

\* The files that are to be loaded; those without a package clause as "_".
Main(c) == Members(c, c.dir, IF Asked(c) = "_" THEN "" ELSE Asked(c))

\* All that is imported, directly or not, is there, and does not lead back to
\* itself.  (What CUE makes of other imports is not Thema's business.)
Resolved(c) == \A i \in Reach(c, Main(c), {}) : (Target(c, i) # {} \/ i = Own) /\ i \notin Reach(c, Target(c, i), {})

Loadable(c) == c.mod \notin NotModule /\ There(c) /\ Main(c) # {} /\ Resolved(c)

Names(fs) == { f.n : f \in fs }
Has1(c, f) == CASE f.imp = "" -> { "1" } [] f.imp = Own -> { "here" } [] OTHER -> Names(Target(c, f.imp))
Loaded(c) == [n \in Names(Main(c)) |-> Has1(c, CHOOSE f \in Main(c) : f.n = n)]
=============================================================================
