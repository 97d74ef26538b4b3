package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/openapi"
)

func init() {
	register(&Check{ID: "P20", Quick: 1600, Thorough: 6000,
		Rule: "random schemas; the Go types generated for them (with and without pointers for optional fields, other comment style, chosen package name) are type-checked by go/types and turned into run-time types; the schema must be assignable to the root type, which must hold every instance without loss; enumerations must have a constant for each value; distinct by schema and options",
		Run:  runP20})
}

// checkGo type-checks generated source.
func checkGo(src []byte) (*types.Package, *ast.File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := cfg.Check("gen", fset, []*ast.File{f}, nil)
	return pkg, f, err
}

// reflectOf turns a checked type into a run-time one.
func reflectOf(t types.Type) (reflect.Type, error) {
	switch x := t.(type) {
	case *types.Named:
		return reflectOf(x.Underlying())
	case *types.Alias:
		return reflectOf(types.Unalias(x))
	case *types.Basic:
		for _, v := range []any{"", false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0)} {
			if reflect.TypeOf(v).String() == x.Name() {
				return reflect.TypeOf(v), nil
			}
		}
	case *types.Interface:
		if x.NumMethods() == 0 {
			return anyT, nil
		}
	case *types.Pointer:
		e, err := reflectOf(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.PointerTo(e), nil
	case *types.Slice:
		e, err := reflectOf(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.SliceOf(e), nil
	case *types.Array:
		e, err := reflectOf(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.ArrayOf(int(x.Len()), e), nil
	case *types.Map:
		k, err := reflectOf(x.Key())
		if err != nil {
			return nil, err
		}
		e, err := reflectOf(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.MapOf(k, e), nil
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < x.NumFields(); i++ {
			e, err := reflectOf(x.Field(i).Type())
			if err != nil {
				return nil, err
			}
			f := reflect.StructField{Name: x.Field(i).Name(), Type: e, Tag: reflect.StructTag(x.Tag(i))}
			if !x.Field(i).Exported() {
				return nil, fmt.Errorf("unexported field %s", f.Name)
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs), nil
	}
	return nil, fmt.Errorf("unexpected type %s", t)
}

func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer:
		return true
	case reflect.Slice, reflect.Array, reflect.Map:
		return hasPtr(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPtr(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// goUngenerable: types for which the Go generator is known to fail (known findings).
func (t *Type) goUngenerable() bool {
	if t.K == KFloat && t.Num == "float" || t.K == KInt && t.Lo == nil && (t.Num == "int" || t.Num == "uint64") ||
		t.K == KMap && t.Elem.hasKind(KConst, KEnum, KUnion, KDisc) && !t.Elem.isScalar() {
		return true
	}
	if t.K == KList && t.Elem.hasKind(KMap) && t.Elem.hasKind(KUnion, KDisc) {
		return true
	}
	for _, f := range t.Fields {
		if strings.Contains(f.Name, `"`) {
			return true
		}
		if f.T.hasKind(KUnion, KDisc) { // alternative N of field X is called XN
			for _, o := range t.Fields {
				if o != f && strings.HasPrefix(o.Name, f.Name) {
					return true
				}
			}
		}
	}
	return t.anyChild((*Type).goUngenerable)
}

func (t *Type) anyChild(f func(*Type) bool) bool {
	for _, x := range t.Fields {
		if f(x.T) {
			return true
		}
	}
	for _, x := range t.Alts {
		if f(x) {
			return true
		}
	}
	return t.Elem != nil && f(t.Elem)
}

func runP20(c *Ctx) {
	rt := newRT()
	if c.Case < len(goProbes) {
		c.probeGo(rt, goProbes[c.Case])
	}
	lc := stdLin()
	lc.min, lc.max = 1, 3
	lc.tuples = false
	lc.nulls, lc.nullAll, lc.openness = false, false, false
	lc.anyMinor = true
	lc.fancy = c.Intn(3) > 0
	lc.lacunas = false
	lc.maps = c.Intn(3) == 0
	if c.Intn(3) == 0 {
		lc.depth++
	}
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	var opts []thema.BindOption
	defs := map[*Sch]map[string]*Type{}
	if c.Intn(3) == 0 && !lc.join {
		for _, s := range l.Schs {
			s.Src, defs[s] = s.T.withDefs("")
		}
	}
	if lc.maps || len(defs) > 0 {
		opts = append(opts, thema.SkipBuggyChecks())
	}
	lin := c.mustBind(rt, l, opts...)
	if lin == nil {
		return
	}
	for i, s := range l.Schs {
		sch := lin.All()[i]
		if s.T.goUngenerable() {
			c.count("skipped")
			continue
		}
		if !lc.fancy {
			c.goGroup(sch, s, defs[s])
		}
		for mode := 0; mode < 3; mode++ {
			cfg := &gocode.TypeConfigOpenAPI{}
			switch mode {
			case 1:
				cfg.NoOptionalPointers, cfg.PackageName = true, "chosen"
			case 2:
				cfg.UseGoDeclInComments = true
			}
			src, err := gocode.GenerateTypesOpenAPI(sch, cfg)
			c.eval("generate")
			c.distinct(s.T.cue(), fmt.Sprint(mode))
			if err != nil {
				c.fail("generate", "%s of %s: %s", s.V, s.T.cue(), oneLine(err))
				continue
			}
			c.note("Go code of %s, mode %d: %s", s.V, mode, src)
			pkg, _, err := checkGo(src)
			if err != nil {
				c.fail("compile", "the Go code for %s does not compile: %s", s.T.cue(), err)
				continue
			}
			if mode == 1 && pkg.Name() != "chosen" {
				c.fail("package", "package %s", pkg.Name())
			}
			obj := pkg.Scope().Lookup(strings.Title(l.Name))
			if obj == nil {
				c.fail("root", "no type %s among %v", strings.Title(l.Name), pkg.Scope().Names())
				continue
			}
			g, err := reflectOf(obj.Type())
			if err != nil || g.Kind() != reflect.Struct {
				c.fail("root", "root type is %v: %v", obj.Type(), err)
				continue
			}
			for n, dt := range defs[s] {
				c.goNamed(pkg, "definition", n, dt, mode)
			}
			consts := map[string]bool{}
			for _, n := range pkg.Scope().Names() {
				if k, ok := pkg.Scope().Lookup(n).(*types.Const); ok && k.Val().Kind() == constant.String {
					consts[constant.StringVal(k.Val())] = true
				}
			}
			for _, f := range s.T.Fields {
				if f.T.K == KEnum && len(f.T.Enum) > 1 {
					c.eval("constants")
					for _, v := range f.T.Enum {
						if !consts[v] {
							c.fail("constants", "no constant for value %q of %s in %s", v, f.Name, s.T.cue())
						}
					}
				}
			}
			if mode == 1 {
				c.eval("no-pointers")
				if hasPtr(g) {
					c.fail("pointers", "pointers remain in %s", showGo(g))
				}
			} else {
				c.eval("assignable")
				if err := thema.AssignableTo(sch, reflect.New(g).Interface()); err != nil {
					c.fail("assignable", "the schema %s is not assignable to the Go type generated for it, %s: %s", s.T.cue(), showGo(g), err)
					continue
				}
			}
			for k := 0; k < 3; k++ {
				d := s.T.hydrate(s.T.gen(c.Rand))
				inst, err := sch.Validate(decode(rt, d))
				if err != nil {
					c.fail("valid", "%s", err)
					continue
				}
				q := reflect.New(g).Interface()
				c.eval("decode")
				if err := inst.Underlying().Decode(q); err != nil {
					c.fail("decode", "data %s of %s cannot be decoded into the generated %s: %s", jsonText(d, nil), s.T.cue(), showGo(g), err)
					continue
				}
				if mode == 1 {
					continue // absent and zero are the same
				}
				b, err := json.Marshal(q)
				must(err)
				got, _ := parseJSON(b)
				if more := added(got, d); more != "" {
					c.fail("added", "data %s of %s becomes %s in the generated %s: %s is added", jsonText(d, nil), s.T.cue(), b, showGo(g), more)
				}
				if !contains(got, d) {
					c.fail("lossy", "data %s of %s becomes %s in the generated %s", jsonText(d, nil), s.T.cue(), b, showGo(g))
				}
			}
		}
	}
}

// added: a field of got that d does not have.
func added(got, d any) string {
	switch g := got.(type) {
	case map[string]any:
		m, ok := d.(map[string]any)
		for k, e := range g {
			if x, has := m[k]; ok && !has {
				return k
			} else if r := added(e, x); r != "" {
				return k + "." + r
			}
		}
	case []any:
		l, _ := d.([]any)
		for i, e := range g {
			if i < len(l) {
				if r := added(e, l[i]); r != "" {
					return r
				}
			}
		}
	}
	return ""
}

// goNamed: a definition, or a field of a grouped schema, has a Go type of its name
// that holds the data.
func (c *Ctx) goNamed(pkg *types.Package, what, name string, t *Type, mode int) {
	c.eval(what)
	var obj types.Object
	for _, n := range pkg.Scope().Names() {
		if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok && strings.EqualFold(n, strings.Map(func(r rune) rune {
			if r == '_' {
				return -1
			}
			return r
		}, name)) {
			obj = tn
		}
	}
	if obj == nil {
		c.fail(what, "no Go type for %s %s among %v", what, name, pkg.Scope().Names())
		return
	}
	g, err := reflectOf(obj.Type())
	if err != nil {
		c.fail(what, "the Go type for %s %s: %s", what, name, err)
		return
	}
	for k := 0; k < 2; k++ {
		d := t.hydrate(t.gen(c.Rand))
		q := reflect.New(g).Interface()
		dec := json.NewDecoder(strings.NewReader(jsonText(d, nil)))
		dec.UseNumber()
		if err := dec.Decode(q); err != nil {
			c.fail(what, "data %s of %s cannot be decoded into the generated %s: %s", jsonText(d, nil), t.cue(), showGo(g), err)
			return
		}
		if mode == 1 {
			continue
		}
		b, err := json.Marshal(q)
		must(err)
		got, _ := parseJSON(b)
		if more := added(got, d); more != "" {
			c.fail(what, "data %s of %s becomes %s in the generated %s: %s is added", jsonText(d, nil), t.cue(), b, showGo(g), more)
		}
		if !contains(got, d) {
			c.fail(what, "data %s of %s becomes %s in the generated %s", jsonText(d, nil), t.cue(), b, showGo(g))
		}
	}
}

// goGroup: in a group, each top-level field has a Go type of its own.
func (c *Ctx) goGroup(sch thema.Schema, s *Sch, defs map[string]*Type) {
	src, err := gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{Config: &openapi.Config{Group: true}})
	if err != nil {
		c.fail("group", "%s: %s", s.T.cue(), err)
		return
	}
	c.note("grouped Go code of %s: %s", s.V, src)
	pkg, _, err := checkGo(src)
	if err != nil {
		c.fail("group", "the grouped Go code for %s does not compile: %s", s.T.cue(), err)
		return
	}
	for _, f := range s.T.Fields {
		if f.T.hasKind(KUnion, KDisc) {
			continue
		}
		c.goNamed(pkg, "group", f.Name, f.T, 0)
	}
	for n, t := range defs {
		c.goNamed(pkg, "group-definition", n, t, 0)
	}
}

// Schemas for which the generated Go types are known to be unusable.
var goProbes = []struct{ key, sch string }{
	{"float", `{a: float}`},
	{"int", `{a: int}`},
	{"map-enum", `{m: {[string]: {k: "x" | "y"}}}`},
	{"map-union", `{m: {[string]: {k: int32 | bool}}}`},
	{"list-map-union", `{m: [...{[string]: int32 | bool}]}`},
	{"alt-name", `{x: {kind: "a"} | {kind: "b"}, x0: "a" | "b"}`},
	{"quote", `{"a\"b": string}`},
}

func (c *Ctx) probeGo(rt *thema.Runtime, p struct{ key, sch string }) {
	lin, err := bindSrc(rt, fmt.Sprintf("name: \"probe\"\nschemas: [{version: [0, 0], schema: %s}]\nlenses: []\n", p.sch))
	must(err)
	c.eval("probe")
	src, err := gocode.GenerateTypesOpenAPI(lin.First(), nil)
	if err == nil {
		var pkg *types.Package
		if pkg, _, err = checkGo(src); err == nil {
			var g reflect.Type
			if g, err = reflectOf(pkg.Scope().Lookup("Probe").Type()); err == nil {
				err = thema.AssignableTo(lin.First(), reflect.New(g).Interface())
			}
		}
	}
	if err != nil {
		c.fail("finding:"+p.key, "%s: %s", p.sch, err)
	}
}
