package run

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	coapi "cuelang.org/go/encoding/openapi"
	"github.com/getkin/kin-openapi/openapi3"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/xeipuuv/gojsonschema"

	"verif/harness/abs"
)

func init() { ops["derive"] = opDerive }

// derive generates the document of a kind for a schema.
func (e *Env) derive(s thema.Schema, k, path, root string, reuse bool) (*ast.File, error) {
	used := e.cfgs["oapi "+k+path+root]
	cfg := config(e, "oapi "+k+path+root, reuse, func() *openapi.Config { return &openapi.Config{RootName: root} })
	if used == any(cfg) {
		return openapi.GenerateSchema(s, cfg)
	}
	switch k {
	case "json":
		return jsonschema.GenerateSchema(s)
	case "openapi":
		if root == "" && !reuse {
			cfg = nil
		}
	case "expand":
		cfg.Config = &coapi.Config{ExpandReferences: true}
	case "group":
		cfg.Group = true
	case "sub":
		var sel []cue.Selector
		for _, x := range strings.Split(path, "/") {
			sel = append(sel, cue.Str(abs.Unescape(x)))
		}
		cfg.Subpath = cue.MakePath(sel...)
	default:
		panic("harness: no such kind of document " + k)
	}
	return openapi.GenerateSchema(s, cfg)
}

// opDerive generates a JSON Schema or OpenAPI document from a schema, and asks
// an independent validator for it which data it allows.
func opDerive(e *Env, op *Op, ev Event) bool {
	s := e.schema(op.L, *op.V)
	if s == nil {
		return false
	}
	ev["root"] = op.S2
	path := []string{}
	if op.K == "sub" {
		path = strings.Split(op.S, "/")
	}
	ev["path"] = path
	var b []byte
	var err error
	if strings.HasPrefix(op.In, "cli ") {
		b, err = e.generated(op, map[string]string{"json": "jsonschema", "openapi": "openapi"}[op.K])
		if err != nil {
			fail(ev, err)
			return true
		}
		b, err = yamlToJSON(b)
	} else {
		var f *ast.File
		f, err = e.derive(s, op.K, op.S, abs.Unescape(op.S2), op.In == "reuse")
		if err != nil {
			fail(ev, err)
			return true
		}
		b, err = e.Ctx.BuildFile(f).MarshalJSON()
	}
	if err != nil {
		ev["r"] = "broken"
		ev["msg"] = clip(err.Error())
		return true
	}
	var doc struct {
		OpenAPI    string
		Info       struct{ Title, Version string }
		Components struct {
			Schemas map[string]map[string]any
		}
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		ev["r"] = "broken"
		ev["msg"] = clip(err.Error())
		return true
	}
	ev["r"] = "ok"
	ev["title"], ev["ver"] = abs.Escape(doc.Info.Title), doc.Info.Version
	names := []string{}
	for n := range doc.Components.Schemas {
		names = append(names, n)
	}
	sort.Strings(names)
	enames := []string{}
	for _, n := range names {
		enames = append(enames, abs.Escape(n))
	}
	ev["comps"] = enames
	dec := json.NewDecoder(strings.NewReader(op.D.JSON()))
	var data any
	if err := dec.Decode(&data); err != nil {
		panic("harness: " + err.Error())
	}
	var full map[string]any
	json.Unmarshal(b, &full) //nolint:errcheck
	var odoc *openapi3.T
	if op.K != "json" {
		odoc, err = openapi3.NewLoader().LoadFromData(b)
		if err == nil {
			err = odoc.Validate(context.Background())
		}
		if err != nil {
			ev["r"] = "broken"
			ev["msg"] = clip(err.Error())
			return true
		}
	}
	acc := map[string]bool{}
	ev["acc"] = acc
	check := func(name string, x any) error {
		if op.K != "json" {
			return odoc.Components.Schemas[name].Value.VisitJSON(x)
		}
		js := doc.Components.Schemas[name]
		js["components"] = full["components"]
		r, err := gojsonschema.Validate(gojsonschema.NewGoLoader(js), gojsonschema.NewGoLoader(x))
		if err != nil {
			return err
		}
		if !r.Valid() {
			return fmt.Errorf("%v", r.Errors())
		}
		return nil
	}
	for _, n := range names {
		x := data
		if op.K == "group" {
			o, is := data.(map[string]any)
			if !is {
				continue
			}
			if x, is = o[n]; !is {
				continue
			}
		}
		err := check(n, x)
		acc[abs.Escape(n)] = err == nil
		if err != nil {
			ev["msg"] = clip(err.Error())
		}
	}
	return true
}
