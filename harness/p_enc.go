package main

import (
	"context"
	"fmt"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	cueopenapi "cuelang.org/go/encoding/openapi"
	cjson "cuelang.org/go/pkg/encoding/json"
	"github.com/getkin/kin-openapi/openapi3"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/xeipuuv/gojsonschema"
)

func init() {
	register(&Check{ID: "P19", Quick: 3600, Thorough: 15000,
		Rule: "random schemas in lineages of 1-4 versions; their OpenAPI documents (whole, grouped, split, a subpath, a chosen root name, a caller's configuration) and JSON Schema documents are loaded by independent validators, which must admit every hydrated instance and refuse data with one fault that the format can express; title, version and defaults are compared with the model; distinct by schema, mode and data",
		Run:  runP19})
}

// relaxed: the type as OpenAPI and JSON Schema express it: structs are open, and
// integers in unions and floats are just numbers.
func (t *Type) relaxed() *Type {
	n := t.clone()
	n.relax()
	return n
}

func (t *Type) relax() {
	t.Open = true
	if t.K == KFloat {
		t.Num = "number"
	}
	for _, f := range t.Fields {
		f.T.relax()
	}
	if t.Elem != nil {
		t.Elem.relax()
	}
	for _, a := range t.Alts {
		if t.K == KUnion && a.K == KInt {
			a.K, a.Num = KFloat, "number"
		}
		a.relax()
	}
}

func (t *Type) hasKind(ks ...K) bool {
	for _, k := range ks {
		if t.K == k {
			return true
		}
	}
	for _, f := range t.Fields {
		if f.T.hasKind(ks...) {
			return true
		}
	}
	if t.Elem != nil && t.Elem.hasKind(ks...) {
		return true
	}
	for _, a := range t.Alts {
		if a.hasKind(ks...) {
			return true
		}
	}
	return false
}

func fileJSON(ctx *cue.Context, f *ast.File) (string, error) {
	v := ctx.BuildFile(f)
	if v.Err() != nil {
		return "", v.Err()
	}
	return cjson.Marshal(v)
}

// docCheck holds a generated document, ready to judge data.
type docCheck struct {
	what  string
	admit func(name string, d any) error
	doc   map[string]any
}

func (c *Ctx) oapiDoc(txt string) (*docCheck, error) {
	ld := openapi3.NewLoader()
	doc, err := ld.LoadFromData([]byte(txt))
	if err != nil {
		return nil, err
	}
	if err := doc.Validate(context.Background(), openapi3.DisableSchemaDefaultsValidation(), openapi3.DisableSchemaPatternValidation()); err != nil {
		return nil, err
	}
	m, err := parseJSON([]byte(txt))
	if err != nil {
		return nil, err
	}
	return &docCheck{"OpenAPI", func(name string, d any) error {
		ref := doc.Components.Schemas[name]
		if ref == nil || ref.Value == nil {
			return fmt.Errorf("no component %q", name)
		}
		return ref.Value.VisitJSON(floats(d))
	}, m.(map[string]any)}, nil
}

func (c *Ctx) jsonSchemaDoc(txt string) (*docCheck, error) {
	m, err := parseJSON([]byte(txt))
	if err != nil {
		return nil, err
	}
	doc := m.(map[string]any)
	cache := map[string]*gojsonschema.Schema{}
	return &docCheck{"JSON Schema", func(name string, d any) error {
		s := cache[name]
		if s == nil {
			root := cloneData(doc).(map[string]any)
			root["$schema"] = "http://json-schema.org/draft-04/schema#"
			root["$ref"] = "#/components/schemas/" + name
			delete(root, "$schema")
			var err error
			if s, err = gojsonschema.NewSchema(gojsonschema.NewStringLoader(jsonText(root, nil))); err != nil {
				return err
			}
			cache[name] = s
		}
		r, err := s.Validate(gojsonschema.NewStringLoader(jsonText(d, nil)))
		if err != nil {
			return err
		}
		if !r.Valid() {
			return fmt.Errorf("%v", r.Errors())
		}
		return nil
	}, doc}, nil
}

// floats: numbers as encoding/json reads them.
func floats(v any) any {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case map[string]any:
		n := map[string]any{}
		for k, e := range x {
			n[k] = floats(e)
		}
		return n
	case []any:
		n := []any{}
		for _, e := range x {
			n = append(n, floats(e))
		}
		return n
	}
	return v
}

func (d *docCheck) at(path ...string) any {
	var v any = d.doc
	for _, p := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[p]
	}
	return v
}

// judge compares the document's verdicts with the model's.
func (c *Ctx) judge(doc *docCheck, mode, comp string, t *Type, n int) {
	rel := t.relaxed()
	for k := 0; k < n; k++ {
		d := t.hydrate(t.gen(c.Rand))
		if doc.what == "JSON Schema" && t.blindNull(d, false) || t.anyNull(d) {
			c.count("skipped-null")
			continue
		}
		c.eval(doc.what + ":" + mode + ":instance")
		c.distinct(t.cue(), mode, jsonText(d, nil))
		if err := doc.admit(comp, d); err != nil {
			c.fail("refuses", "the %s document (%s) refuses the instance %s: %s", doc.what, mode, jsonText(d, nil), oneLine(err))
			return
		}
		nd, f, ok := t.corrupt(c.Rand, d)
		if !ok || rel.valid(nd) || t.ambiguous(nd) {
			continue
		}
		if f.Class == "bounds" && doc.what == "JSON Schema" && t.hasNum("int32", "int64") {
			continue // expressed as a format, which JSON Schema validators ignore
		}
		c.eval(doc.what + ":" + mode + ":" + f.Class)
		if err := doc.admit(comp, nd); err == nil {
			c.fail("admits", "the %s document (%s) admits %s, which has the fault %s", doc.what, mode, jsonText(nd, nil), f)
			return
		}
	}
}

func (t *Type) walk(v any, f func(t *Type, v any, inDisc bool), inDisc bool) {
	f(t, v, inDisc)
	switch x := v.(type) {
	case map[string]any:
		switch t.K {
		case KStruct:
			for _, fd := range t.Fields {
				if e, has := x[fd.Name]; has {
					fd.T.walk(e, f, inDisc)
				}
			}
		case KMap:
			for _, e := range x {
				t.Elem.walk(e, f, inDisc)
			}
		case KDisc:
			if b := t.branch(v); b != nil {
				b.walk(v, f, true)
			}
		}
	case []any:
		for i, e := range x {
			switch t.K {
			case KList:
				t.Elem.walk(e, f, inDisc)
			case KTuple:
				t.Alts[i].walk(e, f, inDisc)
			}
		}
	}
}

// blindNull: null where thema's JSON Schema does not admit it (known findings).
func (t *Type) blindNull(v any, _ bool) (found bool) {
	t.walk(v, func(t *Type, v any, in bool) {
		found = found || v == nil && (in || t.K == KEnum || t.K == KUnion || t.K == KDisc || t.K == KAny)
	}, false)
	return
}

// anyNull: null in place of "_", which OpenAPI's {} does not stand for.
func (t *Type) anyNull(v any) (found bool) {
	t.walk(v, func(t *Type, v any, in bool) {
		found = found || t.K == KAny && strings.Contains(jsonText(v, nil), "null")
	}, false)
	return
}

func (t *Type) hasNum(ns ...string) bool {
	for _, n := range ns {
		if t.Num == n && t.K == KInt {
			return true
		}
	}
	for _, f := range t.Fields {
		if f.T.hasNum(ns...) {
			return true
		}
	}
	if t.Elem != nil && t.Elem.hasNum(ns...) {
		return true
	}
	for _, a := range t.Alts {
		if a.hasNum(ns...) {
			return true
		}
	}
	return false
}

// withDefs renders a struct with its struct-typed fields as references to
// definitions; it returns the definitions' names and types.
func (t *Type) withDefs(attr string) (string, map[string]*Type) {
	defs := map[string]*Type{}
	var b strings.Builder
	b.WriteString("{\n")
	for _, f := range t.Fields {
		opt := ""
		if f.Opt {
			opt = "?"
		}
		if f.T.K == KStruct && !f.T.Null && !f.T.HasDef {
			n := "Def_" + strings.Map(func(r rune) rune {
				if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
					return r
				}
				return '_'
			}, f.Name)
			defs[n] = f.T
			fmt.Fprintf(&b, "%s%s: #%s\n#%s: %s%s\n", cueLabel(f.Name), opt, n, n, f.T.cue(), attr)
		} else {
			fmt.Fprintf(&b, "%s%s: %s\n", cueLabel(f.Name), opt, f.T.cue())
		}
	}
	if t.Open {
		b.WriteString("...\n")
	}
	b.WriteString("}")
	return b.String(), defs
}

func probeP19(c *Ctx, rt *thema.Runtime) {
	for _, p := range [][2]string{
		{"null-enum", `"x" | "y" | null`},
		{"null-union", `string | bool | null`},
		{"null-branch", `{kind: "k1", a: string | null} | {kind: "k2"}`},
	} {
		lin, err := bindSrc(rt, "name: \"probe\"\nschemas: [{version: [0, 0], schema: {f: "+p[1]+"}}]\nlenses: []")
		must(err)
		f, err := jsonschema.GenerateSchema(lin.First())
		must(err)
		txt, err := fileJSON(rt.Context(), f)
		must(err)
		d, err := c.jsonSchemaDoc(txt)
		must(err)
		var data any = map[string]any{"f": nil}
		if p[0] == "null-branch" {
			data = map[string]any{"f": map[string]any{"kind": "k1", "a": nil}}
		}
		c.eval("finding-probe")
		if err := d.admit("probe", data); err != nil {
			c.fail("finding:"+p[0], "the JSON Schema of {f: %s} refuses %s", p[1], jsonText(data, nil))
		}
	}
}

func runP19(c *Ctx) {
	if c.Case == 0 {
		probeP19(c, newRT())
	}
	rt := newRT()
	lc := stdLin()
	lc.min, lc.max = 1, 4
	lc.tuples = false
	lc.maps = c.Intn(3) == 0
	lc.any = c.Intn(4) == 0
	lc.openness = c.Intn(4) == 0
	lc.anyMinor = true
	lc.lacunas = false
	lc.fancy = c.Intn(3) == 0
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	var opts []thema.BindOption
	defs := map[*Sch]map[string]*Type{}
	if c.Intn(3) == 0 && !lc.join {
		for _, s := range l.Schs {
			s.Src, defs[s] = s.T.withDefs("")
		}
	}
	if lc.maps || len(defs) > 0 {
		opts = append(opts, thema.SkipBuggyChecks())
	}
	lin := c.mustBind(rt, l, opts...)
	if lin == nil {
		return
	}
	for i, s := range l.Schs {
		if s.T.hasKind(KTuple) {
			continue
		}
		sch := lin.All()[i]
		load := func(mode string, cfg *openapi.Config, js bool) *docCheck {
			var f *ast.File
			var err error
			if js {
				f, err = jsonschema.GenerateSchema(sch)
			} else {
				f, err = openapi.GenerateSchema(sch, cfg)
			}
			if err != nil {
				c.fail("generate", "%s %s: %s", mode, s.V, oneLine(err))
				return nil
			}
			txt, err := fileJSON(rt.Context(), f)
			if err != nil {
				c.fail("generate", "%s %s does not encode: %s", mode, s.V, oneLine(err))
				return nil
			}
			c.note("%s document of %s: %s", mode, s.V, txt)
			var d *docCheck
			if js {
				d, err = c.jsonSchemaDoc(txt)
			} else {
				d, err = c.oapiDoc(txt)
			}
			if err != nil {
				c.fail("document", "%s %s is no valid document: %s", mode, s.V, oneLine(err))
				return nil
			}
			return d
		}
		title := func(d *docCheck, mode, name string) {
			c.eval("info")
			if d.at("info", "title") != name || d.at("info", "version") != s.V.String() {
				c.fail("info", "%s document of %s has info %v", mode, s.V, d.at("info"))
			}
		}
		if d := load("whole", nil, false); d != nil {
			title(d, "whole", l.Name)
			c.judge(d, "whole", l.Name, s.T, 6)
			for n, t := range defs[s] {
				c.judge(d, "definition", n, t, 2)
			}
			for _, f := range s.T.Fields {
				if f.T.HasDef && !f.T.Null && f.T.K != KDisc && f.T.K != KUnion && !dataEq(f.T.Def, []any{}) {
					c.eval("default")
					if got := d.at("components", "schemas", l.Name, "properties", f.Name, "default"); !dataEq(got, f.T.Def) {
						c.fail("default", "default of %q is %v, want %v", f.Name, got, f.T.Def)
					}
				}
			}
		}
		if d := load("jsonschema", nil, true); d != nil {
			c.judge(d, "jsonschema", l.Name, s.T, 6)
			for n, t := range defs[s] {
				c.judge(d, "jsonschema-definition", n, t, 2)
			}
		}
		switch c.Intn(4) {
		case 3: // options that leave the meaning alone
			cfg, mode := &openapi.Config{}, "split"
			if c.Intn(2) == 0 && !lc.join {
				cfg.SplitSchema = true
			} else {
				cfg.Config, mode = &cueopenapi.Config{}, "base-config"
			}
			if d := load(mode, cfg, false); d != nil {
				title(d, mode, l.Name)
				c.judge(d, mode, l.Name, s.T, 3)
			}
		case 0:
			if d := load("rootname", &openapi.Config{RootName: "Chosen"}, false); d != nil {
				title(d, "rootname", "Chosen")
				c.judge(d, "rootname", "Chosen", s.T, 2)
			}
		case 1:
			if lc.fancy {
				break
			}
			if d := load("group", &openapi.Config{Group: true}, false); d != nil {
				title(d, "group", l.Name)
				comps, _ := d.at("components", "schemas").(map[string]any)
				if len(comps) != len(s.T.Fields)+len(defs[s]) {
					c.fail("group", "%s has %d fields but %d components", s.V, len(s.T.Fields)+len(defs[s]), len(comps))
				}
				for n, t := range defs[s] {
					c.judge(d, "group-definition", n, t, 1)
				}
				for _, f := range s.T.Fields {
					if comps[f.Name] == nil {
						c.fail("group", "no component for field %q", f.Name)
						continue
					}
					c.judge(d, "group", f.Name, f.T, 1)
				}
			}
		case 2:
			path, f := c.subpath(s.T)
			if f == nil {
				break
			}
			what := fmt.Sprintf("subpath:depth=%d", len(path))
			var sels []cue.Selector
			for _, n := range path {
				sels = append(sels, cue.Str(n))
			}
			if d := load(what, &openapi.Config{Subpath: cue.MakePath(sels...)}, false); d != nil {
				title(d, "subpath", f.Name)
				c.judge(d, "subpath", f.Name, f.T, 2)
			}
			// a last step that does not exist
			k := c.Intn(len(sels))
			bad := append(append([]cue.Selector{}, sels[:k]...), cue.Str("noSuchField"))
			_, err := openapi.GenerateSchema(sch, &openapi.Config{Subpath: cue.MakePath(bad...)})
			c.eval("subpath:absent")
			if err == nil {
				c.fail("subpath", "a subpath %v that %s does not have is accepted", cue.MakePath(bad...), s.V)
			}
		}
	}
}

// subpath picks a path to a field that every instance of the struct type has.
func (c *Ctx) subpath(t *Type) ([]string, *Field) {
	var path []string
	var f *Field
	for {
		n := pickField(c.Rand, t, func(f *Field) bool {
			return !f.Opt && !f.T.Null && !strings.ContainsAny(f.Name, "-./ \"$9üï")
		})
		if n == nil {
			return path, f
		}
		f, path, t = n, append(path, n.Name), n.T
		if t.K != KStruct || c.Intn(3) == 0 {
			return path, f
		}
	}
}
