package main

// Reference model of lineages, schema evolution, lenses and translation.

import (
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strings"
)

type Ver [2]uint

func (v Ver) less(o Ver) bool { return v[0] < o[0] || v[0] == o[0] && v[1] < o[1] }
func (v Ver) String() string  { return fmt.Sprintf("%d.%d", v[0], v[1]) }

type Sch struct {
	V  Ver
	T  *Type
	Op []string // how it differs from its predecessor
	// Ren: renamed fields, new name -> old name
	Ren map[string]string
	Ex  map[string]any // examples
	Src string         // text of the schema, if not the type's own
}

// Assign is one clause of a lens: how a field of the target comes about.
type Assign struct {
	Kind string // copy, const, interp, cond, branch, wrap, unwrap, listmap
	Dst  string
	Src  string
	Sub  string // nested field, for wrap/unwrap
	Val  any
	Alt  any
	Cmp  any
}

type LacM struct {
	// the lacuna applies if Src has value Cmp (Cond) or always
	Cond    bool
	Src     string
	Cmp     any
	SrcPath string
	DstPath string
	Msg     string
	Type    string // name
	TypeID  int
	Val     any
	// the values reported are those of the source field and of the result's field
	SrcRef, DstRef bool
}

type Lens struct {
	From, To Ver
	As       []*Assign
	Lac      []*LacM
	Raw      string // verbatim result, for faulty lenses
}

type Lin struct {
	Name   string
	Schs   []*Sch
	Lenses []*Lens
	Join   *Type
	Bare   bool // the schemas do not repeat the fields of the joinSchema
}

func (l *Lin) idx(v Ver) int {
	for i, s := range l.Schs {
		if s.V == v {
			return i
		}
	}
	return -1
}

func (l *Lin) sch(v Ver) *Sch {
	if i := l.idx(v); i >= 0 {
		return l.Schs[i]
	}
	return nil
}

func (l *Lin) lens(from, to Ver) *Lens {
	for _, x := range l.Lenses {
		if x.From == from && x.To == to {
			return x
		}
	}
	return nil
}

// ---- rendering

func verList(v Ver) string { return fmt.Sprintf("[%d, %d]", v[0], v[1]) }

func (a *Assign) cue() string { return a.cueIn("input") }

func (a *Assign) cueIn(input string) string {
	in := input + cueSel(a.Src)
	switch a.Kind {
	case "copy":
		return fmt.Sprintf("if %s != _|_ {%s: %s}", in, cueLabel(a.Dst), in)
	case "const":
		return fmt.Sprintf("%s: %s", cueLabel(a.Dst), cueLit(a.Val))
	case "interp":
		return fmt.Sprintf("if %s != _|_ {%s: \"%s\\(%s)\"}", in, cueLabel(a.Dst), a.Val, in)
	case "cond":
		return fmt.Sprintf("if %s != _|_ {if %s == %s {%s: %s}\nif %s != %s {%s: %s}}\nif %s == _|_ {%s: %s}", in, in, cueLit(a.Cmp), cueLabel(a.Dst), cueLit(a.Val), in, cueLit(a.Cmp), cueLabel(a.Dst), cueLit(a.Alt), in, cueLabel(a.Dst), cueLit(a.Alt))
	case "wrap":
		return fmt.Sprintf("if %s != _|_ {%s: {%s: %s}}", in, cueLabel(a.Dst), cueLabel(a.Sub), in)
	case "unwrap":
		s := in + cueSel(a.Sub)
		return fmt.Sprintf("if %s != _|_ {if %s != _|_ {%s: %s}}", in, s, cueLabel(a.Dst), s)
	case "listmap":
		return fmt.Sprintf("if %s != _|_ {%s: [ for x in %s {x}]}", in, cueLabel(a.Dst), in)
	}
	panic(a.Kind)
}

func (a *Assign) apply(in map[string]any, out map[string]any) {
	v, has := in[a.Src]
	switch a.Kind {
	case "copy", "listmap":
		if has {
			out[a.Dst] = cloneData(v)
		}
	case "const":
		out[a.Dst] = cloneData(a.Val)
	case "interp":
		if has {
			out[a.Dst] = a.Val.(string) + interp(v)
		}
	case "cond":
		if has && dataEq(v, a.Cmp) {
			out[a.Dst] = cloneData(a.Val)
		} else {
			out[a.Dst] = cloneData(a.Alt)
		}
	case "wrap":
		if has {
			out[a.Dst] = map[string]any{a.Sub: cloneData(v)}
		}
	case "unwrap":
		if has {
			if m, ok := v.(map[string]any); ok {
				if x, has := m[a.Sub]; has {
					out[a.Dst] = cloneData(x)
				}
			}
		}
	default:
		panic(a.Kind)
	}
}

func interp(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return fmt.Sprint(x)
	}
	panic("interp")
}

func (x *LacM) applies(in map[string]any) bool {
	if !x.Cond {
		return true
	}
	v, has := in[x.Src]
	return has && dataEq(v, x.Cmp)
}

func (x *LacM) cue() string { return x.cueIn("input") }

func (x *LacM) cueIn(input string) string {
	var b strings.Builder
	b.WriteString("{\n")
	if x.Cond {
		in := input + cueSel(x.Src)
		fmt.Fprintf(&b, "condition: [ if %s != _|_ {%s == %s}, false][0]\n", in, in, cueLit(x.Cmp))
	}
	if x.SrcPath != "" {
		v := cueLit(x.Val)
		if x.SrcRef {
			v = input + cueSel(x.SrcPath)
		}
		fmt.Fprintf(&b, "sourceFields: [{path: %s, value: %s}]\n", cueLit(x.SrcPath), v)
	}
	if x.DstPath != "" {
		v := cueLit(x.Val)
		if x.DstRef {
			v = map[string]string{"input": "result", "from": "to"}[input] + cueSel(x.DstPath)
		}
		fmt.Fprintf(&b, "targetFields: [{path: %s, value: %s}]\n", cueLit(x.DstPath), v)
	}
	fmt.Fprintf(&b, "message: %s\ntype: {name: %s, id: %d}\n}", cueLit(x.Msg), cueLit(x.Type), x.TypeID)
	return b.String()
}

func (x *Lens) cue() string {
	var b strings.Builder
	fmt.Fprintf(&b, "{\nto: %s\nfrom: %s\ninput: _\nresult: {\n", verList(x.To), verList(x.From))
	if x.Raw != "" {
		b.WriteString(x.Raw + "\n")
	}
	for _, a := range x.As {
		b.WriteString(a.cue() + "\n")
	}
	b.WriteString("}\n")
	b.WriteString("lacunas: [")
	for _, l := range x.Lac {
		b.WriteString(l.cue() + ",\n")
	}
	b.WriteString("]\n}")
	return b.String()
}

// body renders the fields of the lineage.
func (l *Lin) body() string { return l.bodyL(true) }

func (l *Lin) bodyL(lenses bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %s\n", cueLit(l.Name))
	if l.Join != nil {
		fmt.Fprintf(&b, "joinSchema: %s\n", l.Join.cue())
	}
	b.WriteString("schemas: [\n")
	for _, s := range l.Schs {
		src := s.Src
		if src == "" {
			src = l.own(s.T).cue()
		}
		fmt.Fprintf(&b, "{\nversion: %s\nschema: %s\n", verList(s.V), src)
		if len(s.Ex) > 0 {
			b.WriteString("examples: {\n")
			for _, k := range keys(s.Ex) {
				fmt.Fprintf(&b, "%s: %s\n", cueLabel(k), cueLit(s.Ex[k]))
			}
			b.WriteString("}\n")
		}
		b.WriteString("},\n")
	}
	b.WriteString("]\n")
	if lenses {
		b.WriteString("lenses: [\n")
		for _, x := range l.Lenses {
			b.WriteString(x.cue() + ",\n")
		}
		b.WriteString("]\n")
	}
	return b.String()
}

// own is what a schema declares itself: all but what it leaves to the joinSchema.
func (l *Lin) own(t *Type) *Type {
	if l.Join == nil || !l.Bare {
		return t
	}
	n := t.clone()
	n.Fields = slices.DeleteFunc(n.Fields, func(f *Field) bool {
		return f.Name == "joined" && !f.Opt && f.T.cue() == l.Join.field("joined").T.cue()
	})
	return n
}

func (l *Lin) shape() string {
	var p []string
	for _, s := range l.Schs {
		p = append(p, s.V.String())
	}
	return strings.Join(p, " ")
}

// ---- evolution

// scalarSub: every value of a is a value of b.
func scalarSub(a, b *Type) bool {
	if a.Null && !b.Null {
		return false
	}
	switch {
	case b.K == KAny:
		return true
	case a.K == KString && b.K == KString, a.K == KBool && b.K == KBool:
		return true
	case a.K == KRegex && b.K == KRegex:
		return a.Re == b.Re
	case a.K == KRegex && b.K == KString:
		return true
	case a.K == KEnum && b.K == KString:
		return true
	case a.K == KEnum && b.K == KEnum:
		for _, e := range a.Enum {
			ok := false
			for _, f := range b.Enum {
				ok = ok || e == f
			}
			if !ok {
				return false
			}
		}
		return true
	case a.K == KInt && b.K == KInt:
		al, ah := a.rng()
		bl, bh := b.rng()
		return al >= bl && ah <= bh
	case a.K == KFloat && b.K == KFloat:
		return a.Num == b.Num && a.Lo == nil && b.Lo == nil
	case a.K == KConst:
		return b.K != KUnion && b.valid(a.Const)
	}
	return false
}

// copySafe: a lens may copy any value of a into a field of type b, with the
// outcome the model predicts.
func copySafe(a, b *Type) bool {
	if a.HasDef && b.HasDef && !dataEq(a.Def, b.Def) {
		return false
	}
	if a.isScalar() && b.isScalar() && a.K != KUnion && b.K != KUnion {
		return scalarSub(a, b)
	}
	return a.cue() == b.cue()
}

type linCfg struct {
	genCfg
	min, max  int // number of schemas
	pMajor    float64
	lacunas   bool
	join      bool
	examples  bool
	nestedOps bool
	// anyMinor also uses minor changes that translation is known to stumble on
	// (see known_findings.txt)
	anyMinor bool
}

func stdLin() linCfg {
	g := fullCfg()
	g.any = false
	g.openness = false
	g.maps = false
	return linCfg{genCfg: g, min: 2, max: 5, pMajor: 0.45, lacunas: true, nestedOps: true}
}

type evolution struct {
	name string
	// apply mutates the struct type; ok=false if not applicable
	apply func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool
}

func usedNames(t *Type) map[string]bool {
	u := map[string]bool{"kind": true}
	for _, f := range t.Fields {
		u[f.Name] = true
	}
	return u
}

func pickField(r *rand.Rand, t *Type, ok func(*Field) bool) *Field {
	var c []*Field
	for _, f := range t.Fields {
		if ok(f) {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pick(r, c)
}

var newNames = 0

func (c genCfg) freshLabel(r *rand.Rand, t *Type) string {
	u := usedNames(t)
	n := c.label(r, u)
	return n
}

var compatOps = []evolution{
	{"add-optional", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		ft := c.typ(r, 1)
		ft.HasDef, ft.Def = false, nil
		t.Fields = append(t.Fields, &Field{c.freshLabel(r, t), true, ft})
		return true
	}},
	{"add-optional-first", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		ft := c.typ(r, 1)
		ft.HasDef, ft.Def = false, nil
		t.Fields = append([]*Field{{c.freshLabel(r, t), true, ft}}, t.Fields...)
		return true
	}},
	{"widen-enum", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KEnum && !f.T.HasDef })
		if f == nil {
			return false
		}
		for k := len(f.T.Enum); ; k++ {
			if e := fmt.Sprintf("extra%d", k); !slices.Contains(f.T.Enum, e) {
				f.T.Enum = append(f.T.Enum, e)
				break
			}
		}
		return true
	}},
	{"widen-bounds", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool {
			return f.T.K == KInt && f.T.Hi != nil && !f.T.HasDef && *f.T.Hi < 100 && !f.T.Null
		})
		if f == nil {
			return false
		}
		h := *f.T.Hi + 7
		f.T.Hi = &h
		return true
	}},
	{"required-to-optional", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return !f.Opt && !f.T.HasDef })
		if f == nil || len(t.Fields) < 2 {
			return false
		}
		f.Opt = true
		return true
	}},
	{"int32-to-int64", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KInt && f.T.Num == "int32" && f.T.Lo == nil && !f.T.HasDef })
		if f == nil {
			return false
		}
		f.T.Num = "int64"
		return true
	}},
	{"reorder", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		if len(t.Fields) < 2 {
			return false
		}
		r.Shuffle(len(t.Fields), func(i, j int) { t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i] })
		return true
	}},
	{"enum-to-string", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KEnum && !f.T.HasDef })
		if f == nil {
			return false
		}
		f.T.K, f.T.Enum = KString, nil
		return true
	}},
	{"widen-disjunction", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool {
			return f.T.K == KUnion && len(f.T.Alts) == 2 && !f.T.Null && !f.T.HasDef
		})
		if f == nil || !c.nulls {
			return false
		}
		f.T.Null = true
		return true
	}},
	{"add-alternative", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KDisc && !f.T.Null && !f.T.HasDef && len(f.T.Alts) < 4 })
		if f == nil {
			return false
		}
		f.T.Alts = append(f.T.Alts, &Type{K: KStruct, Fields: []*Field{{"kind", false, &Type{K: KConst, Const: freshKind(f.T)}}, {"added", false, &Type{K: KString}}}})
		return true
	}},
	{"regex-to-string", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KRegex && !f.T.HasDef })
		if f == nil {
			return false
		}
		f.T.K, f.T.Re = KString, ""
		return true
	}},
	{"open", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		if t.Open || !c.openness || s != nil {
			return false
		}
		t.Open = true
		return true
	}},
}

func freshKind(t *Type) string {
	k := "a"
	for _, a := range t.Alts {
		if s := a.field("kind").T.Const.(string); s >= k {
			k = string(rune(s[0] + 1))
		}
	}
	return k
}

// subsumeOnlyOps are compatible as CUE's subsumption sees it, but leave instances
// that relied on the value the schema determined without one (see DESIGN.md).
var subsumeOnlyOps = []evolution{
	{"const-to-string", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KConst && f.Name != "kind" })
		if f == nil {
			return false
		}
		switch f.T.Const.(type) {
		case string:
			f.T.K = KString
		case bool:
			f.T.K = KBool
		default:
			f.T.K, f.T.Num = KInt, "int"
		}
		f.T.Const = nil
		return true
	}},
	{"drop-default", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.HasDef && f.T.K == KString })
		if f == nil {
			return false
		}
		f.T.HasDef, f.T.Def = false, nil
		return true
	}},
}

var breakOps = []evolution{
	{"remove-required", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return !f.Opt })
		if f == nil || len(t.Fields) < 2 {
			return false
		}
		t.drop(f.Name)
		return true
	}},
	{"remove-optional", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.Opt })
		if f == nil || len(t.Fields) < 2 {
			return false
		}
		t.drop(f.Name)
		return true
	}},
	{"add-required", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		ft := c.scalar(r)
		if ft.K == KConst {
			return false
		}
		t.Fields = append(t.Fields, &Field{c.freshLabel(r, t), false, ft})
		return true
	}},
	{"optional-to-required", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.Opt })
		if f == nil || f.T.fillable() {
			return false
		}
		f.Opt = false
		return true
	}},
	{"narrow-enum", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KEnum && !f.T.HasDef && len(f.T.Enum) > 2 })
		if f == nil {
			return false
		}
		f.T.Enum = f.T.Enum[1:]
		return true
	}},
	{"narrow-bounds", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KInt && f.T.Hi != nil && !f.T.HasDef && *f.T.Hi > 20 })
		if f == nil {
			return false
		}
		h := *f.T.Hi - 9
		f.T.Hi = &h
		return true
	}},
	{"change-kind", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return !f.T.HasDef && f.T.K != KAny })
		if f == nil {
			return false
		}
		if f.T.K == KString || f.T.K == KEnum || f.T.K == KRegex || f.T.K == KUnion || f.T.K == KConst {
			f.T = &Type{K: KStruct, Fields: []*Field{{"inner", false, &Type{K: KString}}}}
		} else {
			f.T = &Type{K: KString}
		}
		return true
	}},
	{"string-to-enum", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KString && !f.T.HasDef })
		if f == nil {
			return false
		}
		f.T.K, f.T.Enum = KEnum, []string{"foo", "bar"}
		return true
	}},
	{"rename", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return true })
		if f == nil {
			return false
		}
		n := c.freshLabel(r, t)
		if s != nil {
			s.Ren[n] = f.Name
		}
		f.Name = n
		return true
	}},
	{"remove-alternative", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KDisc && !f.T.Null && !f.T.HasDef && len(f.T.Alts) > 2 })
		if f == nil {
			return false
		}
		f.T.Alts = f.T.Alts[1:]
		return true
	}},
	{"add-required-default", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		ft := &Type{K: KString, HasDef: true, Def: "dflt"}
		t.Fields = append(t.Fields, &Field{c.freshLabel(r, t), false, ft})
		return true
	}},
	{"change-default", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.HasDef && f.T.K == KString })
		if f == nil {
			return false
		}
		f.T.Def = f.T.Def.(string) + "!"
		return true
	}},
	{"add-default", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return !f.T.HasDef && f.T.K == KString && !f.Opt && !f.T.Null })
		if f == nil || s == nil {
			return false
		}
		f.T.HasDef, f.T.Def = true, "newly"
		return true
	}},
	{"tuple-shorten", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.K == KTuple && len(f.T.Alts) > 1 })
		if f == nil {
			return false
		}
		f.T.Alts = f.T.Alts[1:]
		return true
	}},
	{"disallow-null", func(r *rand.Rand, c genCfg, t *Type, s *Sch) bool {
		f := pickField(r, t, func(f *Field) bool { return f.T.Null })
		if f == nil {
			return false
		}
		f.T.Null = false
		return true
	}},
}

// nested returns the struct types nested in t's fields through required or
// optional struct fields and lists, where an evolution may happen as well.
func nestedStructs(t *Type) []*Type {
	var out []*Type
	for _, f := range t.Fields {
		e := f.T
		if e.K == KStruct && !e.HasDef && !e.Null && !f.T.HasDef {
			out = append(out, e)
			out = append(out, nestedStructs(e)...)
		}
	}
	return out
}

func hasOptDisj(t *Type) bool {
	for _, f := range t.Fields {
		if f.Opt && (f.T.K == KEnum || f.T.K == KUnion || f.T.K == KDisc) {
			return true
		}
	}
	return false
}

// evolve applies one operation of the list.
func evolve(r *rand.Rand, c linCfg, ops []evolution, s *Sch) string {
	for tries := 0; tries < 200; tries++ {
		op := pick(r, ops)
		t, where := s.T, ""
		if c.nestedOps && r.Intn(4) == 0 {
			if ns := nestedStructs(s.T); len(ns) > 0 {
				t, where = pick(r, ns), "nested-"
			}
		}
		if t.Open {
			// a new field may clash with the data an open struct admits
			if op.name == "open" || len(s.T.Fields) == 0 || where == "" {
				return ""
			}
			continue
		}
		var sc *Sch
		if where == "" {
			sc = s
		}
		if !c.anyMinor && (op.name == "widen-enum" || op.name == "widen-disjunction" || op.name == "add-alternative") && hasOptDisj(t) {
			continue
		}
		before := s.T.cue()
		if op.apply(r, c.genCfg, t, sc) && (s.T.cue() != before) {
			return where + op.name
		}
	}
	return ""
}

func genLin(r *rand.Rand, c linCfg) *Lin {
	n := c.min + r.Intn(c.max-c.min+1)
	l := &Lin{Name: pick(r, []string{"lin", "thing", "demo", "Widget", "camelCase"})}
	first := &Sch{T: c.strct(r, c.depth-1, 2+r.Intn(4)), Ren: map[string]string{}}
	first.T.Open = false
	if c.join {
		// all schemas share the fields of the joinSchema
		l.Bare = r.Intn(2) == 0
		l.Join = &Type{K: KStruct, Fields: []*Field{{Name: "joined", T: &Type{K: KString}}}}
		if first.T.field("joined") == nil {
			first.T.Fields = append(first.T.Fields, &Field{"joined", false, &Type{K: KString}})
		}
	}
	l.Schs = []*Sch{first}
	for tries := 0; len(l.Schs) < n && tries < 60; tries++ {
		p := l.Schs[len(l.Schs)-1]
		s := &Sch{T: p.T.clone(), Ren: map[string]string{}}
		prev := p.T.cue()
		var ops []evolution
		if r.Float64() < c.pMajor {
			s.V = Ver{p.V[0] + 1, 0}
			ops = breakOps
		} else {
			s.V = Ver{p.V[0], p.V[1] + 1}
			ops = compatOps
		}
		for k := 0; k < 1+r.Intn(2); k++ {
			op := evolve(r, c, ops, s)
			if op == "" && k == 0 {
				s = nil
				break
			}
			s.Op = append(s.Op, op)
			if ops[0].name == "remove-required" {
				break // several breaking operations might cancel out
			}
		}
		if s == nil || s.T.cue() == prev {
			continue
		}
		if c.join && (s.T.field("joined") == nil || s.T.field("joined").T.K != KString || s.T.field("joined").Opt || s.T.field("joined").T.Null) {
			continue
		}
		l.Schs = append(l.Schs, s)
	}
	if c.examples {
		for _, s := range l.Schs {
			s.Ex = map[string]any{}
			for k := 0; k < r.Intn(3); k++ {
				s.Ex[fmt.Sprintf("ex%d", k)] = s.T.gen(r)
			}
		}
	}
	l.genLenses(r, c)
	return l
}

// genLenses defines the exact set of lenses that the schemas entail, in
// canonical order.
func (l *Lin) genLenses(r *rand.Rand, c linCfg) {
	l.Lenses = nil
	for i := 1; i < len(l.Schs); i++ {
		p, s := l.Schs[i-1], l.Schs[i]
		l.Lenses = append(l.Lenses, l.mkLens(r, c, s, p, invert(s.Ren)))
		if s.V[0] != p.V[0] {
			l.Lenses = append(l.Lenses, l.mkLens(r, c, p, s, s.Ren))
		}
	}
	sort.SliceStable(l.Lenses, func(i, j int) bool {
		a, b := l.Lenses[i], l.Lenses[j]
		if a.To != b.To {
			return a.To.less(b.To)
		}
		return a.From.less(b.From)
	})
}

func invert(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[v] = k
	}
	return n
}

func (l *Lin) mkLens(r *rand.Rand, c linCfg, from, to *Sch, ren map[string]string) *Lens {
	x := &Lens{From: from.V, To: to.V}
	for _, f := range to.T.Fields {
		src := from.T.field(f.Name)
		if o, ok := ren[f.Name]; ok {
			src = from.T.field(o)
		}
		need := !f.Opt && !f.T.fillable()
		if src != nil {
			srcReq := !src.Opt
			// the first step sees raw data, where a schema-determined value may be absent
			sure := srcReq && !src.T.fillable()
			switch {
			case copySafe(src.T, f.T) && (sure || !need):
				// strings occasionally get rewritten, so that the path through
				// the lenses shows in the outcome
				plainStr := f.T.K == KString && src.T.K == KString && !src.T.Null && !f.T.Null
				switch {
				case plainStr && r.Intn(2) == 0:
					x.As = append(x.As, &Assign{Kind: "interp", Dst: f.Name, Src: src.Name, Val: fmt.Sprintf("%d%d>", to.V[0], to.V[1])})
				case f.T.K == KList && !f.T.HasDef && !f.T.Null && !src.T.Null && r.Intn(2) == 0:
					x.As = append(x.As, &Assign{Kind: "listmap", Dst: f.Name, Src: src.Name})
				default:
					x.As = append(x.As, &Assign{Kind: "copy", Dst: f.Name, Src: src.Name})
				}
				continue
			case f.T.K == KStruct && !f.T.Null && f.T.field("inner") != nil && len(f.T.Fields) == 1 && src.T.K == KString && !src.T.Null && !src.T.HasDef && (sure || !need):
				x.As = append(x.As, &Assign{Kind: "wrap", Dst: f.Name, Sub: "inner", Src: src.Name})
				continue
			case src.T.K == KStruct && !src.T.Null && src.T.field("inner") != nil && len(src.T.Fields) == 1 && f.T.K == KString && (sure || !need):
				x.As = append(x.As, &Assign{Kind: "unwrap", Dst: f.Name, Sub: "inner", Src: src.Name})
				continue
			case (src.T.K == KEnum || src.T.K == KBool || src.T.K == KInt) && !src.T.Null && (need || r.Intn(2) == 0):
				x.As = append(x.As, &Assign{Kind: "cond", Dst: f.Name, Src: src.Name, Cmp: nonNil(r, src.T), Val: f.T.gen(r), Alt: f.T.gen(r)})
				continue
			}
		}
		if need || r.Intn(3) == 0 {
			x.As = append(x.As, &Assign{Kind: "const", Dst: f.Name, Val: f.T.gen(r)})
		}
	}
	if c.lacunas {
		for k := 0; k < r.Intn(3); k++ {
			x.Lac = append(x.Lac, genLac(r, from, to, x))
		}
	}
	return x
}

func nonNil(r *rand.Rand, t *Type) any {
	for {
		if v := t.gen(r); v != nil {
			return v
		}
	}
}

var lacTypes = []string{"Placeholder", "DroppedField", "LossyFieldMapping", "ChangedDefault"}

func genLac(r *rand.Rand, from, to *Sch, x *Lens) *LacM {
	id := r.Intn(4)
	m := &LacM{Msg: fmt.Sprintf("%s->%s %s #%d", from.V, to.V, pick(r, []string{"dropped", "100% lossy", "naïve \"quote\"", "changed"}), r.Intn(1000)), Type: lacTypes[id], TypeID: id + 1}
	if r.Intn(4) == 0 {
		m.Msg = "the same gap in several steps"
	}
	if len(from.T.Fields) > 0 {
		m.SrcPath = pick(r, from.T.Fields).Name
	}
	if r.Intn(2) == 0 && len(to.T.Fields) > 0 {
		m.DstPath = pick(r, to.T.Fields).Name
	}
	m.Val = pick(r, []any{"v", int64(3), true, nil})
	if f := from.T.field(m.SrcPath); f != nil && r.Intn(2) == 0 {
		m.SrcRef = !f.Opt && !f.T.Null && (f.T.K == KString || f.T.K == KRegex || f.T.K == KInt || f.T.K == KBool) && !f.T.HasDef
	}
	if f := to.T.field(m.DstPath); f != nil && r.Intn(2) == 0 {
		for _, a := range x.As { // other kinds of assignment are conditional
			if a.Dst == f.Name {
				switch a.Val.(type) {
				case string, bool, int64:
					m.DstRef = a.Kind == "const"
				}
			}
		}
	}
	f := pickField(r, from.T, func(f *Field) bool {
		return (f.T.K == KEnum || f.T.K == KBool) && !f.T.Null
	})
	if f != nil && r.Intn(3) > 0 {
		m.Cond, m.Src, m.Cmp = true, f.Name, f.T.gen(r)
		if m.Cmp == nil {
			m.Cond = false
		}
	}
	return m
}

// ---- reference translation

type lacOut struct {
	V   Ver
	Lac *LacM
	// the values reported
	Src, Dst any
}

// path returns the schemas a translation passes through, excluding the first.
func (l *Lin) path(from, to Ver) []*Sch {
	i, j := l.idx(from), l.idx(to)
	var p []*Sch
	for i < j {
		i++
		p = append(p, l.Schs[i])
	}
	for i > j {
		i--
		p = append(p, l.Schs[i])
	}
	return p
}

// translate predicts the outcome of translating data, valid for from, to to.
func (l *Lin) translate(data any, from, to Ver) (any, []lacOut) {
	cur := cloneData(data).(map[string]any)
	cv := from
	var lacs []lacOut
	for _, s := range l.path(from, to) {
		var next map[string]any
		if cv[0] == s.V[0] && cv.less(s.V) {
			next = cloneData(cur).(map[string]any)
		} else {
			x := l.lens(cv, s.V)
			next = map[string]any{}
			for _, a := range x.As {
				a.apply(cur, next)
			}
			for _, m := range x.Lac {
				if m.applies(cur) {
					o := lacOut{s.V, m, m.Val, m.Val}
					if m.SrcRef {
						o.Src = cur[m.SrcPath]
					}
					if m.DstRef {
						o.Dst = next[m.DstPath]
					}
					lacs = append(lacs, o)
				}
			}
		}
		cur = s.T.hydrate(next).(map[string]any)
		cv = s.V
	}
	return cur, lacs
}
