package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/grafana/thema"
)

func init() {
	register(&Check{ID: "P15", Quick: 10000, Thorough: 40000,
		Rule: "random schemas with Go types made for them by reflection (pointers, wider integers, any, shuffled fields), which must be accepted and hold every instance without loss, and with one mutation at a random site (field missing, added, renamed, other kind, narrower integer, slice for array, double pointer), which must be rejected; distinct by schema and Go type",
		Run:  runP15})
}

// goMutations break assignability of a Go type at a site.
var goMutations = []struct {
	name string
	mut  func(c *Ctx, t *Type, g reflect.Type) reflect.Type // nil: not applicable
}{
	{"field-missing", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		return onStruct(g, func(fs []reflect.StructField) []reflect.StructField {
			if len(fs) == 0 {
				return nil
			}
			i := c.Intn(len(fs))
			return append(fs[:i:i], fs[i+1:]...)
		})
	}},
	{"field-added", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		return onStruct(g, func(fs []reflect.StructField) []reflect.StructField {
			tag := pick(c.Rand, []string{"zzAdded", "zzAdded,omitempty"})
			return append(fs, reflect.StructField{Name: "Added", Type: pick(c.Rand, []reflect.Type{anyT, reflect.TypeOf(""), reflect.TypeOf((*bool)(nil))}), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, tag))})
		})
	}},
	{"field-renamed", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		return onStruct(g, func(fs []reflect.StructField) []reflect.StructField {
			if len(fs) == 0 {
				return nil
			}
			i := c.Intn(len(fs))
			n, opt, _ := strings.Cut(fs[i].Tag.Get("json"), ",")
			if opt != "" {
				opt = "," + opt
			}
			fs[i].Tag = reflect.StructTag(fmt.Sprintf(`json:"%sX%s"`, n, opt))
			return fs
		})
	}},
	{"kind", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		e, p := deref(g)
		if e == anyT || t.K == KMap {
			return nil
		}
		c2 := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(false), goInts["int64"], reflect.TypeOf([]string{}), reflect.TypeOf(struct{ A string }{})}
		for {
			n := pick(c.Rand, c2)
			if kindClass(n) != kindClass(e) {
				return p(n)
			}
		}
	}},
	{"narrower-int", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		e, p := deref(g)
		if e == anyT || t.K != KInt {
			return nil
		}
		lo, hi := t.rng()
		var cs []reflect.Type
		for _, n := range []string{"int8", "int16", "int32", "uint16", "uint32", "uint64"} {
			r := intRanges[n]
			if lo < r[0] || hi > r[1] {
				cs = append(cs, goInts[n])
			}
		}
		if len(cs) == 0 {
			return nil
		}
		return p(pick(c.Rand, cs))
	}},
	{"narrower-than-any", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		switch t.K {
		case KUnion:
			return pick(c.Rand, []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(false), goInts["int64"], reflect.TypeOf(float64(0))})
		case KDisc:
			return pick(c.Rand, t.Alts).goStruct(nil)
		case KTuple:
			if len(t.Alts) > 1 && !t.homogeneous() {
				return reflect.ArrayOf(len(t.Alts), notByte(t.Alts[c.Intn(len(t.Alts))].goType(nil, false)))
			}
		case KInt:
			if t.Num == "int" && t.Lo == nil {
				return goInts[pick(c.Rand, []string{"int64", "uint64", "int32"})]
			}
		case KAny:
			return pick(c.Rand, []reflect.Type{reflect.TypeOf(""), goInts["int64"], reflect.TypeOf(map[string]any{})})
		}
		return nil
	}},
	{"array-for-slice", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		if t.K != KList || g == anyT {
			return nil
		}
		return reflect.ArrayOf(1+c.Intn(3), g.Elem())
	}},
	{"slice-for-array", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		e, _ := deref(g)
		if t.K != KTuple || e == anyT {
			return nil
		}
		return reflect.SliceOf(e.Elem())
	}},
	{"array-length", func(c *Ctx, t *Type, g reflect.Type) reflect.Type {
		e, p := deref(g)
		if t.K != KTuple || e == anyT {
			return nil
		}
		return p(reflect.ArrayOf(len(t.Alts)+1, e.Elem()))
	}},
}

func kindClass(g reflect.Type) string {
	switch g.Kind() {
	case reflect.String, reflect.Bool, reflect.Struct:
		return g.Kind().String()
	case reflect.Slice, reflect.Array:
		return "list"
	case reflect.Map:
		return "struct"
	}
	return "number"
}

func deref(g reflect.Type) (reflect.Type, func(reflect.Type) reflect.Type) {
	if g.Kind() == reflect.Ptr {
		return g.Elem(), func(n reflect.Type) reflect.Type { return reflect.PtrTo(n) }
	}
	return g, func(n reflect.Type) reflect.Type { return n }
}

func onStruct(g reflect.Type, f func([]reflect.StructField) []reflect.StructField) reflect.Type {
	e, p := deref(g)
	if e.Kind() != reflect.Struct {
		return nil
	}
	var fs []reflect.StructField
	for i := 0; i < e.NumField(); i++ {
		fs = append(fs, reflect.StructField{Name: e.Field(i).Name, Type: e.Field(i).Type, Tag: e.Field(i).Tag})
	}
	if fs = f(fs); fs == nil {
		return nil
	}
	return p(reflect.StructOf(fs))
}

func runP15(c *Ctx) {
	if c.Case == 0 {
		probeP15(c)
		return
	}
	rt := newRT()
	lc := stdLin()
	lc.fancy = false
	lc.any = true
	lc.maps = true
	lc.nullAll = false // Go assignability excludes null
	lc.min, lc.max = 1, 1
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	s := l.Schs[0]
	g := s.T.goStruct(c.Rand)
	p := reflect.New(g).Interface()
	var arg any = p
	if c.Intn(3) == 0 {
		arg = reflect.New(g).Elem().Interface() // not a pointer
	}
	c.eval("accept")
	c.distinct(s.T.cue(), g.String())
	c.sample("schema %s Go type %s", s.T.cue(), showGo(g))
	if err := thema.AssignableTo(lin.First(), arg); err != nil {
		c.fail("accept", "schema %s\nGo type %s is rejected: %s", s.T.cue(), showGo(g), err)
		return
	}
	ts, err := thema.BindType[any](lin.First(), p)
	if err != nil {
		c.fail("accept", "schema %s\nGo type %s cannot be bound: %s", s.T.cue(), showGo(g), err)
		return
	}
	if ts.Version() != lin.First().Version() {
		c.fail("version", "typed schema has version %s", ts.Version())
	}
	for k := 0; k < 6; k++ {
		d := s.T.gen(c.Rand)
		inst, err := lin.First().Validate(decode(rt, d))
		if err != nil {
			c.fail("valid", "%s", err)
			continue
		}
		q := reflect.New(g).Interface()
		c.eval("decode")
		if err := inst.Underlying().Decode(q); err != nil {
			c.fail("decode", "schema %s\nis assignable to Go type %s, but data %s is not: %s", s.T.cue(), showGo(g), jsonText(d, nil), err)
			continue
		}
		b, err := json.Marshal(q)
		must(err)
		got, _ := parseJSON(b)
		if !contains(got, d) {
			c.fail("lossy", "schema %s\nis assignable to Go type %s, but data %s becomes %s", s.T.cue(), showGo(g), jsonText(d, nil), b)
		}
	}
	// other types
	var sites []*Type
	s.T.goSites(&sites)
	for k := 0; k < 6; k++ {
		m := pick(c.Rand, goMutations)
		b := goBuilder{target: pick(c.Rand, sites)}
		applied := false
		b.mut = func(t *Type, g reflect.Type) reflect.Type {
			if n := m.mut(c, t, g); n != nil {
				applied = true
				return n
			}
			return g
		}
		var g reflect.Type
		if b.target == s.T {
			g = b.mut(s.T, b.strct(s.T))
		} else {
			g = b.strct(s.T)
		}
		if !applied || g.Kind() != reflect.Struct {
			continue
		}
		c.eval("reject:" + m.name)
		c.distinct(s.T.cue(), g.String())
		p := reflect.New(g).Interface()
		if err := thema.AssignableTo(lin.First(), p); err == nil {
			c.fail("reject:"+m.name, "schema %s\nis taken to be assignable to Go type %s (%s)", s.T.cue(), showGo(g), m.name)
			continue
		} else if err.Error() == "" {
			c.fail("empty", "empty error message")
		}
		if _, err := thema.BindType[any](lin.First(), p); err == nil {
			c.fail("reject:"+m.name, "schema %s\nbinds to Go type %s (%s)", s.T.cue(), showGo(g), m.name)
		}
	}
	pp := reflect.New(reflect.PtrTo(g)).Interface()
	c.eval("reject:shape")
	for _, bad := range []any{pp, "str", 3, []string{}, map[string]any{}, reflect.New(reflect.TypeOf("")).Interface()} {
		if err := thema.AssignableTo(lin.First(), bad); err == nil {
			c.fail("reject:shape", "a %T is taken to be assignable", bad)
		}
	}
	if err := thema.AssignableTo(lin.First(), pp); !is(err, thema.ErrPointerDepth) {
		c.fail("reject:shape", "double pointer: %v", err)
	}
}

func probeP15(c *Ctx) {
	rt := newRT()
	lin, err := bindSrc(rt, "name: \"p\"\nschemas: [{version: [0, 0], schema: {a: float64, m: {[string]: string}}}]\nlenses: []")
	must(err)
	type T struct {
		A float64           `json:"a"`
		M map[string]string `json:"m"`
	}
	type U struct {
		A float64        `json:"a"`
		M map[string]int `json:"m"`
	}
	c.eval("probe")
	if err := thema.AssignableTo(lin.First(), &T{}); err != nil {
		c.fail("accept", "%s", err)
	}
	inst, err := lin.First().Validate(decode(rt, map[string]any{"a": int64(0)}))
	must(err)
	if err := inst.Underlying().Decode(&T{}); err != nil {
		c.fail("finding:float-zero", "%s", err)
	}
	if thema.AssignableTo(lin.First(), &U{}) == nil {
		c.fail("finding:map-elem", "a schema's map of string is assignable to a Go map of int")
	}
	for _, t := range []string{"[...string] | [...bool] | *[]", "[...bool] | [...string]", "[...bool] | [...string] | *[\"x\"]", "[...string] | [...bool]", "[...string] | [...bool] | [...int64] | *[true]"} {
		lin, err := bindSrc(rt, "name: \"p\"\nschemas: [{version: [0, 0], schema: {a: "+t+"}}]\nlenses: []")
		must(err)
		c.eval("reject:list-union")
		if thema.AssignableTo(lin.First(), &struct {
			A []string `json:"a"`
		}{}) == nil {
			c.fail("reject:list-union", "schema {a: %s} is taken to be assignable to Go type struct { A []string }", t)
		}
	}
	lin, err = bindSrc(rt, "name: \"probe\"\nschemas: [{version: [0, 0], schema: {\"_a\": string}}]\nlenses: []")
	must(err)
	if err := thema.AssignableTo(lin.First(), &struct {
		A string `json:"_a"`
	}{}); err != nil {
		c.fail("finding:underscore", "%s", err)
	}
}

// contains: all of d's data is in got.
func contains(got, d any) bool {
	m, ok := d.(map[string]any)
	if !ok {
		l, ok := d.([]any)
		if !ok {
			return dataEq(got, d)
		}
		n, ok := got.([]any)
		if !ok || len(n) != len(l) {
			return len(l) == 0 && got == nil
		}
		for i := range l {
			if !contains(n[i], l[i]) {
				return false
			}
		}
		return true
	}
	g, ok := got.(map[string]any)
	if !ok {
		return false
	}
	for k, e := range m {
		x, has := g[k]
		if !has {
			// omitempty
			if x, ok := e.(map[string]any); ok && len(x) == 0 {
				return true
			}
			if x, ok := e.([]any); ok && len(x) == 0 {
				return true
			}
			return e == nil
		}
		if !contains(x, e) {
			return false
		}
	}
	return true
}
