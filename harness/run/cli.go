package run

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/grafana/thema"

	"verif/harness/abs"
)

func init() { ops["cli"] = opCli }

// layouts lists ways to store a lineage for the command line: files, the
// arguments that point at it, and the directory (cd) to be in.
var layouts = map[string]string{
	"file":     "-- args -l DIR/lin.cue\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"dir":      "-- args -l DIR\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"nopkg":    "-- args -l DIR/lin.cue\n-- lin.cue\nTHEMAthema.#Lineage\nBODY",
	"plain":    "-- args -l DIR/lin.cue\n-- lin.cue\nIMPORTSBODY",
	"path":     "-- args -l DIR/lin.cue -p a.b\n-- lin.cue\npackage lin\nTHEMAa: b: thema.#Lineage\na: b: {\nBODY}\n",
	"nopath":   "-- args -l DIR/lin.cue -p a.c\n-- lin.cue\npackage lin\nTHEMAa: b: thema.#Lineage\na: b: {\nBODY}\n",
	"nofile":   "-- args -l DIR/line.cue\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"cwd":      "-- cd .\n-- args -l lin.cue\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"here":     "-- cd .\n-- args -l .\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"rel":      "-- cd other\n-- args -l ../some/lin.cue\n-- other/x.txt\n-- some/lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"mod":      modfile + "-- args -l DIR/some/sub\n-- some/sub/lin.cue\npackage sub\nTHEMAthema.#Lineage\nBODY",
	"modfile":  modfile + "-- args -l DIR/some/sub/lin.cue\n-- some/sub/lin.cue\npackage other\nTHEMAthema.#Lineage\nBODY",
	"modrel":   modfile + "-- cd some\n-- args -l sub -p lin\n-- some/sub/lin.cue\npackage sub\nTHEMAlin: thema.#Lineage & {\nBODY}\n",
	"nested":   "-- cue.mod/module.cue\nmodule: \"outer.test/o\"\n-- in/cue.mod/module.cue\nmodule: \"verif.test/lin\"\n-- args -l DIR/in/top/lin.cue -p lin\n-- in/base/base.cue\npackage base\nTHEMAlin: thema.#Lineage & {\nBODY}\n-- in/top/lin.cue\npackage top\nimport \"verif.test/lin/base\"\nlin: base.lin\n",
	"alone":    "-- args -l DIR/lin.cue\n-- lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY\n-- other.cue\npackage lin\nschemas: 5\nname: 7\n",
	"modalone": modfile + "-- args -l DIR/some/lin.cue\n-- some/lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY\n-- some/other.cue\npackage lin\nschemas: 5\nname: 7\n-- up.cue\npackage other\nname: 7\n",
	"above":    modfile + "-- args -l DIR/some/sub\n-- some/base.cue\npackage sub\nimport \"github.com/grafana/thema\"\nthema.#Lineage\nPARTA\n-- some/sub/lin.cue\npackage sub\nIMPORTSPARTB\n",
	"deep":     modfile + "-- cd a/b\n-- args -l ./c/d/e/lin.cue\n-- a/b/c/d/e/lin.cue\npackage e\nTHEMAthema.#Lineage\nBODY",
	"dots":     "-- args -l DIR/some/.././other/lin.cue\n-- some/x.txt\n-- other/lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"spaces":   modfile + "-- args -l DIR/some%20dir/-x/lin.cue\n-- some dir/-x/lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"link":     "-- args -l DIR/link/lin.cue\n-- link link some\n-- some/lin.cue\npackage lin\nTHEMAthema.#Lineage\nBODY",
	"quoted":   "-- args -l DIR/lin.cue -p \"a-b\".lin\n-- lin.cue\npackage lin\nTHEMA\"a-b\": lin: thema.#Lineage\n\"a-b\": lin: {\nBODY}\n",
	"defpath":  "-- args -l DIR/lin.cue -p #x.lin\n-- lin.cue\npackage lin\nTHEMA#x: lin: thema.#Lineage\n#x: lin: {\nBODY}\n",
	"listed":   "-- args -l DIR/lin.cue -p lins[1]\n-- lin.cue\npackage lin\nTHEMAlins: [{}, thema.#Lineage & {\nBODY}]\n",
	"among":    "-- args -l DIR/lin.cue -p lin\n-- lin.cue\npackage lin\nTHEMAother: thema.#Lineage & {name: \"other\", schemas: [{version: [0, 0], schema: {zz: int}}]}\nlin: thema.#Lineage & {\nBODY}\n",
	"files":    "-- args -l DIR -p lin\n-- a.cue\npackage lin\nimport \"github.com/grafana/thema\"\nlin: thema.#Lineage\n-- b.cue\npackage lin\nIMPORTSlin: {\nPARTB}\nlin: {\nPARTA}\n",
	"imported": modfile + "-- args -l DIR/top -p lin\n-- base/base.cue\npackage base\nTHEMAlin: thema.#Lineage & {\nBODY}\n-- top/top.cue\npackage top\nimport \"verif.test/lin/base\"\nlin: base.lin\n",
}

// Layouts lists the ways to store a lineage.
func Layouts() []string { return abs.SortedKeys(layouts) }

// stored is a lineage in the file system.
type stored struct {
	root, cd string
	args     []string
}

// store writes a lineage into a scratch directory.
func (e *Env) store(l *abs.Lin, layout string) stored {
	src, ok := layouts[layout]
	if !ok {
		panic("harness: no such layout " + layout)
	}
	root, err := os.MkdirTemp(e.scratch(), "lin-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	body, imp := l.Body(), ""
	if abs.NeedsStrings(body) {
		imp = "import \"strings\"\n"
	}
	i := strings.Index(body, "schemas: [")
	src = strings.NewReplacer("BODY", body, "PARTA", body[:i], "PARTB", body[i:], "THEMA", "import \"github.com/grafana/thema\"\n"+imp, "IMPORTS", imp).Replace(src)
	st := stored{root: root, cd: "."}
	for _, f := range strings.Split("\n"+src, "\n-- ")[1:] {
		name, text, _ := strings.Cut(f, "\n")
		switch {
		case strings.HasPrefix(name, "args "):
			st.args = strings.Fields(strings.ReplaceAll(name[5:], "DIR", root))
			for i := range st.args {
				st.args[i] = strings.ReplaceAll(st.args[i], "%20", " ")
			}
		case strings.HasPrefix(name, "cd "):
			st.cd = name[3:]
		case strings.HasPrefix(name, "link "):
			l := strings.Fields(name)
			if err := os.Symlink(l[2], filepath.Join(root, l[1])); err != nil {
				panic("harness: " + err.Error())
			}
		default:
			write(filepath.Join(root, name), text+"\n")
		}
	}
	return st
}

func write(path, text string) {
	err := os.MkdirAll(filepath.Dir(path), 0o755)
	if err == nil {
		err = os.WriteFile(path, []byte(text), 0o644)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// scratch is a directory for the files of a scenario.
func (e *Env) scratch() string {
	if e.dir == "" {
		cwd, err := os.Getwd()
		if err == nil {
			e.dir, err = os.MkdirTemp(cwd, "cli-")
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	return e.dir
}

// themaCmd runs a command of the command line tool.
func (e *Env) themaCmd(st stored, skip bool, args []string, stdin *os.File) (out, msg string, code int) {
	bin := os.Getenv("THEMA_CLI")
	if bin == "" {
		panic("harness: THEMA_CLI is not set")
	}
	cmd := exec.Command(bin, append(args, st.args...)...)
	cmd.Dir = filepath.Join(st.root, st.cd)
	cmd.Env = append(os.Environ(), "HOME="+e.scratch())
	if skip {
		cmd.Env = append(cmd.Env, "THEMA_SKIP_BUGGY=1")
	}
	var o, m bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &m
	if stdin != nil {
		cmd.Stdin = stdin
	}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() }) //nolint:errcheck
	cmd.Wait()                                                         //nolint:errcheck
	t.Stop()
	return o.String(), m.String(), cmd.ProcessState.ExitCode()
}

// generated runs a command that generates something from a schema: In is "cli",
// then the layout, then the output format.
func (e *Env) generated(op *Op, what string, args ...string) ([]byte, error) {
	in := strings.Fields(op.In)
	st := e.store(e.spec[op.L], in[1])
	defer os.RemoveAll(st.root) //nolint:errcheck
	args = append([]string{"lineage", "gen", what}, args...)
	if vs(e.lins[op.L].Latest().Version()) != *op.V || len(in)%2 == 0 {
		args = append(args, "-v", op.V.Dotted())
	}
	file := ""
	for _, o := range in[2:] {
		switch o {
		case "json", "yaml", "yml":
			args = append(args, "-f", o)
		case "stdout":
			args = append(args, "--stdout")
		case "file":
			file = "lin_types_gen.go"
		}
	}
	out, msg, code := e.themaCmd(st, e.spec[op.L].Skip, args, nil)
	if code == 1 {
		return nil, errors.New(msg)
	}
	if code != 0 {
		panic(fmt.Sprintf("exit %d: %s", code, msg))
	}
	if file != "" {
		var b []byte
		filepath.Walk(st.root, func(p string, _ os.FileInfo, err error) error { //nolint:errcheck
			if filepath.Base(p) == file {
				b, _ = os.ReadFile(p)
			}
			return nil
		})
		return b, nil
	}
	return []byte(out), nil
}

// GenLayouts lists the layouts from which something can be generated.
func GenLayouts() []string {
	var ls []string
	for _, l := range Layouts() {
		if l != "nofile" && l != "nopath" {
			ls = append(ls, l)
		}
	}
	return ls
}

var cliNames = map[string]string{"validate": "validate", "any": "validate-any", "translate": "translate", "hydrate": "hydrate", "dehydrate": "dehydrate"}

// opCli runs a data command: K says which, V or S the version, In how the data
// is handed over, S2 how the lineage is stored, and further options.
func opCli(e *Env, op *Op, ev Event) bool {
	l := e.spec[op.L]
	opts := strings.Fields(op.S2)
	st := e.store(l, opts[0])
	args := []string{"data", cliNames[op.K]}
	ev["lay"], ev["quiet"], ev["vt"] = opts[0], false, "none"
	ev["bound"], ev["form"] = e.lins[op.L] != nil, "ok"
	ver := "-v"
	for _, o := range opts[1:] {
		switch o {
		case "quiet":
			ev["quiet"] = true
			args = append(args, "-q")
		case "long":
			ver = "--version"
			if op.K == "translate" {
				ver = "--to"
			}
		case "junk", "empty", "unknown", "mismatch", "twice", "nodata", "dir":
			ev["form"] = o
		default:
			panic("harness: no such option " + o)
		}
	}
	if op.V != nil {
		ev["vt"] = "given"
		args = append(args, ver, op.V.Dotted())
	} else if op.S != "" {
		ev["vt"] = "bad"
		args = append(args, ver, abs.Unescape(op.S))
	}
	text := op.D.JSON()
	var stdin *os.File
	in := strings.Fields(op.In)
	for i, o := range in[1:] {
		if i == 0 {
			args = append(args, "-e", o)
		}
	}
	if strings.Contains(op.In, "yaml") || in[0] == "yml" {
		text = yamlText(op.D)
	}
	// ways in which the data cannot be had
	switch ev["form"] {
	case "junk":
		text = "{\"a\": [" + text
		if len(in) > 1 && in[1] == "json" {
			text += "]"
		}
	case "empty":
		text = ""
	case "unknown":
		args = append(args, "-e", "toml")
	case "mismatch":
		if in[0] == "yaml" || in[0] == "yml" {
			args = append(args, "-e", "json")
		} else {
			in[0] = "json"
			args = append(args, "-e", "yaml")
		}
	}
	file := ""
	switch in[0] {
	case "json", "yaml":
		file = "data." + in[0]
	case "yml", "ldjson":
		file = "data." + in[0]
	case "noext":
		file = "data"
	case "pipe", "pipeyaml":
		r, w, err := os.Pipe()
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer r.Close() //nolint:errcheck
		go func() {
			w.WriteString(text) //nolint:errcheck
			w.Close()           //nolint:errcheck
		}()
		stdin = r
	case "redirect":
		write(filepath.Join(st.root, "in.txt"), text)
		f, err := os.Open(filepath.Join(st.root, "in.txt"))
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer f.Close() //nolint:errcheck
		stdin = f
	default:
		panic("harness: no such way " + op.In)
	}
	if file != "" {
		file = filepath.Join(e.scratch(), file)
		write(file, text)
		switch ev["form"] {
		case "nodata":
			os.Remove(file) //nolint:errcheck
		case "dir":
			file = st.root
		case "twice":
			args = append(args, file)
		}
		args = append(args, file)
	}
	out, msg, code := e.themaCmd(st, l.Skip, args, stdin)
	os.RemoveAll(st.root) //nolint:errcheck
	ev["msg"] = clip(msg)
	ev["empty"], ev["err"] = strings.TrimSpace(out) == "", strings.TrimSpace(msg) != ""
	switch {
	case code == 1:
		ev["r"] = "fail"
		return true
	case code != 0:
		ev["r"] = "panic"
		ev["code"] = code
		return true
	}
	ev["r"] = "ok"
	ev["ov"], ev["from"], ev["od"] = []uint{}, []uint{}, abs.Atom("?")
	vers := func(s string) []uint {
		v, err := thema.ParseSyntacticVersion(s)
		if err != nil {
			return []uint{}
		}
		return []uint{v[0], v[1]}
	}
	bad := func(err error) bool {
		ev["od"] = abs.Atom("?:" + clip(err.Error()))
		return true
	}
	switch op.K {
	case "any":
		ev["ov"] = vers(strings.TrimSuffix(out, "\n"))
	case "hydrate", "dehydrate":
		d, err := abs.FromJSON([]byte(out))
		if err != nil {
			return bad(err)
		}
		ev["od"] = d
	case "translate":
		var r struct {
			From, To string
			Result   json.RawMessage
			Lacunas  []struct {
				V       []uint
				Lacunas []thema.Lacuna
			}
		}
		dec := json.NewDecoder(strings.NewReader(out))
		dec.UseNumber()
		if err := dec.Decode(&r); err != nil {
			return bad(err)
		}
		ev["from"], ev["ov"] = vers(r.From), vers(r.To)
		d, err := abs.FromJSON(r.Result)
		if err != nil {
			return bad(err)
		}
		ev["od"] = d
		lac, lacv := []any{}, []any{}
		for _, s := range r.Lacunas {
			for _, l := range s.Lacunas {
				lac = append(lac, map[string]any{
					"ty": int(l.Type), "msg": abs.Escape(l.Message),
					"src": refs(l.SourceFields), "tgt": refs(l.TargetFields),
				})
				lacv = append(lacv, s.V)
			}
		}
		ev["lac"], ev["lacv"] = lac, lacv
	}
	return true
}
