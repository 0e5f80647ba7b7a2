------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* A lineage in a directory of a Go program, and the code that is          *)
(* generated to load it.  A placement is                                   *)
(*   [lin  |-> depth of the directory with the lineage,                    *)
(*    cue  |-> depth of the nearest cue.mod, or None,                      *)
(*    pkg  |-> CUE package of the lineage, or NoPkg,                       *)
(*    dir  |-> the generator was pointed at the directory, not the file,   *)
(*    at   |-> the lineage is a field, not the file as a whole]            *)
(* The program has a go.mod at depth 0.  Generated code embeds the files   *)
(* of that one directory, makes them the root of a module, and loads one   *)
(* package of it by name.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

None  == -1
NoPkg == ""
Dirs  == << "app", "some", "lin" >>      \* the root's name is that of the module

Placements(pkgs) ==
  { p \in [lin : 0..2, cue : { None } \cup 0..2, pkg : pkgs, dir : BOOLEAN, at : BOOLEAN] :
      /\ p.cue <= p.lin
      /\ p.dir => p.pkg # NoPkg }      \* files of a directory belong together by their package

\* The last element of the module that the embedded files are made into.
ModBase(p) == IF p.cue = None THEN Dirs[1]
              ELSE IF p.cue = p.lin THEN "mod" ELSE Dirs[p.lin + 1]
\* The package the loader looks for when it is not told.
ByDefault(p) == ModBase(p)
\* What it is told.
Told(p) == IF p.pkg = NoPkg THEN "_" ELSE IF p.pkg = ByDefault(p) THEN NoPkg ELSE p.pkg
Sought(p) == IF Told(p) = NoPkg THEN ByDefault(p) ELSE Told(p)
Embedded(p) == { IF p.pkg = NoPkg THEN "_" ELSE p.pkg }

\* The generated code finds the lineage, wherever it is.
Finds(p) == Sought(p) \in Embedded(p)
\* Without being told, it would not.
NeedsTelling(p) == ByDefault(p) \notin Embedded(p) <=> Told(p) # NoPkg
=============================================================================
