package run

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"

	tload "github.com/grafana/thema/load"

	"verif/harness/abs"
)

func init() { ops["load"] = opLoad }

// File is a CUE file with one field, named N, that lists the fields of the
// package it imports, if any.
type File struct {
	Dir string `json:"dir"` // "" for the root
	F   string `json:"f"`   // name of the file
	Pkg string `json:"pkg"` // "" for none
	N   string `json:"n"`
	Imp string `json:"imp"` // import path, "" for none
}

var modfiles = map[string]string{
	"ok":     "module: \"verif.test/m\"\n",
	"flat":   "module: \"verif.test\"\n",
	"more":   "module: \"verif.test/m\"\ncue: lang: \"v0.5.0\"\n",
	"self":   "module: \"github.com/grafana/thema\"\n",
	"empty":  "module: \"\"\n",
	"number": "module: 3\n",
	"other":  "mod: \"verif.test/m\"\n",
	"syntax": "module: \"verif.test/m\n",
	"blank":  "\n",
}

// Modfiles lists the ways a module is described.
func Modfiles() []string { return append(abs.SortedKeys(modfiles), "none", "wrapped", "vendored") }

// opLoad loads a package from files: K is the module file, S the directory,
// S2 the package asked for, if any; In says from what kind of file system.
func opLoad(e *Env, op *Op, ev Event) bool {
	m := fstest.MapFS{}
	ev["files"], ev["mod"], ev["dir"], ev["pk"] = op.Files, op.K, op.S, op.S2
	if op.Files == nil {
		ev["files"] = []File{}
	}
	put := func(p, text string) { m[p] = &fstest.MapFile{Data: []byte(text)} }
	if t, ok := modfiles[op.K]; ok {
		put("cue.mod/module.cue", t)
	}
	if op.K == "vendored" {
		put("cue.mod/module.cue", modfiles["ok"])
		put("cue.mod/pkg/github.com/grafana/thema/lineage.cue", "package thema\n#Lineage: {...}\n")
	}
	for _, f := range op.Files {
		src := ""
		if f.Pkg != "" {
			src = "package " + f.Pkg + "\n"
		}
		switch {
		case f.Imp == "github.com/grafana/thema":
			src += fmt.Sprintf("import \"%s\"\n%s: (thema.#Lineage & {name: \"here\", schemas: [{version: [0, 0], schema: {a: string}}]}).name\n", f.Imp, f.N)
		case f.Imp != "":
			src += fmt.Sprintf("import q \"%s\"\n%s: [for k, v in q {k}]\n", f.Imp, f.N)
		default:
			src += f.N + ": 1\n"
		}
		if strings.HasSuffix(f.F, ".json") {
			src = "{\"" + f.N + "\": 1}\n"
		}
		put(path.Join(f.Dir, f.F), src)
	}
	var opts []tload.Option
	if op.S2 != "" {
		opts = append(opts, tload.Package(op.S2))
	}
	fsys := dirOf(e, m, op.In == "disk")
	if op.K == "wrapped" {
		fsys = tload.AsModFS(fsys, "verif.test/m")
	} else if op.In == "wrap" && op.K != "none" {
		// has a module already, so this changes nothing
		fsys = tload.AsModFS(fsys, "verif.test/another")
	}
	inst, err := tload.InstanceWithThema(fsys, op.S, opts...)
	if err != nil {
		ev["r"], ev["msg"] = "fail", clip(err.Error())
		var nm *tload.ErrFSNotACueModule
		ev["nm"] = errors.As(err, &nm)
		return true
	}
	v := cuecontext.New().BuildInstance(inst)
	if err := v.Err(); err != nil {
		ev["r"], ev["msg"] = "broken", clip(err.Error())
		return true
	}
	ev["r"] = "ok"
	fields := map[string]any{}
	it, err := v.Fields()
	if err != nil {
		ev["r"], ev["msg"] = "broken", clip(err.Error())
		return true
	}
	for it.Next() {
		fields[it.Label()] = seen(it.Value())
	}
	ev["fields"] = fields
	ev["ip"] = inst.ImportPath
	return true
}

// seen is what a field of a loaded package has.
func seen(v cue.Value) []string {
	if n, err := v.Int64(); err == nil {
		return []string{fmt.Sprint(n)}
	}
	if s, err := v.String(); err == nil {
		return []string{s}
	}
	var out []string
	if err := v.Decode(&out); err != nil {
		return []string{"?" + clip(err.Error())}
	}
	if out == nil {
		out = []string{}
	}
	sort.Strings(out)
	return out
}

// dirOf gives the files as they are, or from a directory.
func dirOf(e *Env, m fstest.MapFS, disk bool) fs.FS {
	if !disk {
		return m
	}
	root, err := os.MkdirTemp(e.scratch(), "fs-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	for p, f := range m {
		write(path.Join(root, p), string(f.Data))
	}
	return os.DirFS(root)
}
