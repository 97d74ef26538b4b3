package main

// Independent reference model of the schema sub-language the workloads use.
//
// A Type renders itself to CUE text and, independently of CUE, decides
// membership of JSON-like data, computes defaults, and generates data that is
// valid, or invalid with exactly one known fault.

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// JSON-like data: map[string]any, []any, string, bool, int64, float64, nil.

type K int

const (
	KString K = iota
	KRegex
	KEnum
	KBool
	KInt
	KFloat
	KConst
	KStruct
	KList
	KTuple
	KMap
	KUnion // distinct scalar kinds
	KDisc  // disjunction of structs discriminated by a "kind" const
	KAny
)

var kindNames = []string{"string", "regex", "enum", "bool", "int", "float", "const", "struct", "list", "tuple", "map", "union", "disc", "any"}

type Type struct {
	K      K
	Re     string
	Enum   []string
	Num    string // CUE name of numeric type
	Lo, Hi *int64 // additional inclusive bounds
	Const  any
	Fields []*Field
	Open   bool
	Elem   *Type
	Alts   []*Type
	HasDef bool
	Def    any
	Null   bool
}

type Field struct {
	Name string
	Opt  bool
	T    *Type
}

var intRanges = map[string][2]int64{
	"int":    {-1 << 62, 1 << 62},
	"int8":   {-128, 127},
	"int16":  {-32768, 32767},
	"int32":  {-2147483648, 2147483647},
	"int64":  {-1 << 62, 1 << 62},
	"uint":   {0, 1 << 62},
	"uint8":  {0, 255},
	"uint16": {0, 65535},
	"uint32": {0, 4294967295},
	"uint64": {0, 1 << 62},
}

func (t *Type) rng() (lo, hi int64) {
	r := intRanges[t.Num]
	lo, hi = r[0], r[1]
	if t.Lo != nil && *t.Lo > lo {
		lo = *t.Lo
	}
	if t.Hi != nil && *t.Hi < hi {
		hi = *t.Hi
	}
	return
}

func (t *Type) clone() *Type {
	n := *t
	n.Enum = append([]string(nil), t.Enum...)
	n.Fields = nil
	for _, f := range t.Fields {
		n.Fields = append(n.Fields, &Field{f.Name, f.Opt, f.T.clone()})
	}
	if t.Elem != nil {
		n.Elem = t.Elem.clone()
	}
	n.Alts = nil
	for _, a := range t.Alts {
		n.Alts = append(n.Alts, a.clone())
	}
	return &n
}

func (t *Type) field(n string) *Field {
	for _, f := range t.Fields {
		if f.Name == n {
			return f
		}
	}
	return nil
}

func (t *Type) drop(n string) {
	var fs []*Field
	for _, f := range t.Fields {
		if f.Name != n {
			fs = append(fs, f)
		}
	}
	t.Fields = fs
}

// ---- CUE rendering

var identRE = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9]*$`)

func cueLabel(n string) string {
	if identRE.MatchString(n) && n != "input" && n != "from" && n != "to" { // unquoted, it would capture references in lenses
		return n
	}
	return cueLit(n)
}

func cueSel(n string) string {
	if identRE.MatchString(n) {
		return "." + n
	}
	return "[" + cueLit(n) + "]"
}

func cueLit(v any) string { return jsonText(v, nil) }

// jsonText encodes data as JSON. With a non-nil rng, object keys are shuffled.
func jsonText(v any, r *rand.Rand) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return quoteJSON(x)
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case int:
		return strconv.Itoa(x)
	case float64:
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.ContainsAny(s, ".") {
			s += ".0"
		}
		return s
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, jsonText(e, r))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		ks := keys(x)
		if r != nil {
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		var p []string
		for _, k := range ks {
			p = append(p, quoteJSON(k)+":"+jsonText(x[k], r))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	panic(fmt.Sprintf("jsonText: %T", v))
}

func quoteJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 0x20:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func keys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (t *Type) cue() string {
	var parts []string
	switch t.K {
	case KString:
		parts = []string{"string"}
	case KRegex:
		parts = []string{"=~" + quoteJSON(t.Re)}
	case KEnum:
		for _, e := range t.Enum {
			if t.HasDef && t.Def == e {
				parts = append(parts, "*"+quoteJSON(e))
			} else {
				parts = append(parts, quoteJSON(e))
			}
		}
		if t.Null {
			parts = append(parts, "null")
		}
		return strings.Join(parts, " | ")
	case KBool:
		parts = []string{"bool"}
	case KInt, KFloat:
		s := t.Num
		if t.Lo != nil {
			s += fmt.Sprintf(" & >=%d", *t.Lo)
		}
		if t.Hi != nil {
			s += fmt.Sprintf(" & <=%d", *t.Hi)
		}
		if t.Lo != nil || t.Hi != nil {
			s = "(" + s + ")"
		}
		parts = []string{s}
	case KConst:
		parts = []string{cueLit(t.Const)}
	case KStruct:
		var b strings.Builder
		b.WriteString("{\n")
		for _, f := range t.Fields {
			q := ""
			if f.Opt {
				q = "?"
			}
			fmt.Fprintf(&b, "%s%s: %s\n", cueLabel(f.Name), q, f.T.cue())
		}
		if t.Open {
			b.WriteString("...\n")
		}
		b.WriteString("}")
		parts = []string{b.String()}
	case KList:
		parts = []string{"[..." + t.Elem.cue() + "]"}
	case KTuple:
		var p []string
		for _, a := range t.Alts {
			p = append(p, a.cue())
		}
		parts = []string{"[" + strings.Join(p, ", ") + "]"}
	case KMap:
		parts = []string{"{[string]: " + t.Elem.cue() + "}"}
	case KUnion, KDisc:
		for _, a := range t.Alts {
			parts = append(parts, a.cue())
		}
	case KAny:
		parts = []string{"_"}
	}
	if t.Null {
		parts = append(parts, "null")
	}
	if t.HasDef {
		parts = append(parts, "*"+cueLit(t.Def))
	}
	return strings.Join(parts, " | ")
}

// ---- membership

// valid reports whether v is an instance of t.
func (t *Type) valid(v any) bool {
	if t.Null && v == nil {
		return true
	}
	switch t.K {
	case KString:
		_, ok := v.(string)
		return ok
	case KRegex:
		s, ok := v.(string)
		return ok && regexp.MustCompile(t.Re).MatchString(s)
	case KEnum:
		s, ok := v.(string)
		if !ok {
			return false
		}
		for _, e := range t.Enum {
			if e == s {
				return true
			}
		}
		return false
	case KBool:
		_, ok := v.(bool)
		return ok
	case KInt:
		i, ok := v.(int64)
		if !ok {
			return false
		}
		lo, hi := t.rng()
		return i >= lo && i <= hi
	case KFloat:
		var f float64
		switch x := v.(type) {
		case float64:
			f = x
		case int64:
			if t.Num == "float" {
				return false
			}
			f = float64(x)
		default:
			return false
		}
		if t.Lo != nil && f < float64(*t.Lo) || t.Hi != nil && f > float64(*t.Hi) {
			return false
		}
		return true
	case KConst:
		return dataEq(v, t.Const)
	case KStruct:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for _, f := range t.Fields {
			fv, has := m[f.Name]
			if has {
				if !f.T.valid(fv) {
					return false
				}
			} else if !f.Opt && !f.T.fillable() {
				return false
			}
		}
		if !t.Open {
			for k := range m {
				if t.field(k) == nil {
					return false
				}
			}
		}
		return true
	case KList:
		l, ok := v.([]any)
		if !ok {
			return false
		}
		for _, e := range l {
			if !t.Elem.valid(e) {
				return false
			}
		}
		return true
	case KTuple:
		l, ok := v.([]any)
		if !ok || len(l) != len(t.Alts) {
			return false
		}
		for i, e := range l {
			if !t.Alts[i].valid(e) {
				return false
			}
		}
		return true
	case KMap:
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for _, e := range m {
			if !t.Elem.valid(e) {
				return false
			}
		}
		return true
	case KUnion:
		for _, a := range t.Alts {
			if a.valid(v) {
				return true
			}
		}
		return false
	case KDisc:
		a := t.branch(v)
		return a != nil && a.valid(v)
	case KAny:
		return true
	}
	panic("valid")
}

// branch picks the alternative of a discriminated union; data without a
// discriminator is never generated.
func (t *Type) branch(v any) *Type {
	m, ok := v.(map[string]any)
	if !ok {
		return nil
	}
	for _, a := range t.Alts {
		if dataEq(m["kind"], a.field("kind").T.Const) {
			return a
		}
	}
	return nil
}

// fillable: a required field of this type may be absent, as the schema itself
// determines a value.
func (t *Type) fillable() bool {
	if t.HasDef {
		return true
	}
	if t.Null {
		return false
	}
	switch t.K {
	case KConst, KList, KMap:
		return true
	case KEnum:
		return len(t.Enum) == 1
	case KStruct:
		for _, f := range t.Fields {
			if !f.Opt && !f.T.fillable() {
				return false
			}
		}
		return true
	case KTuple:
		for _, a := range t.Alts {
			if !a.fillable() {
				return false
			}
		}
		return true
	}
	return false
}

func (t *Type) fill() any {
	if t.HasDef {
		return cloneData(t.Def)
	}
	switch t.K {
	case KConst:
		return t.Const
	case KEnum:
		return t.Enum[0]
	case KList:
		return []any{}
	case KMap:
		return map[string]any{}
	case KStruct:
		return t.hydrate(map[string]any{})
	case KTuple:
		l := []any{}
		for _, a := range t.Alts {
			l = append(l, a.fill())
		}
		return l
	}
	panic("fill")
}

// hydrate returns v with every schema-determined value filled in.
func (t *Type) hydrate(v any) any {
	switch t.K {
	case KStruct:
		m, ok := v.(map[string]any)
		if !ok {
			return v
		}
		n := map[string]any{}
		for k, e := range m {
			if f := t.field(k); f != nil {
				n[k] = f.T.hydrate(e)
			} else {
				n[k] = cloneData(e)
			}
		}
		for _, f := range t.Fields {
			if _, has := n[f.Name]; !has && !f.Opt && f.T.fillable() {
				n[f.Name] = f.T.fill()
			}
		}
		return n
	case KList:
		l, ok := v.([]any)
		if !ok {
			return v
		}
		n := []any{}
		for _, e := range l {
			n = append(n, t.Elem.hydrate(e))
		}
		return n
	case KTuple:
		l, ok := v.([]any)
		if !ok {
			return v
		}
		n := []any{}
		for i, e := range l {
			n = append(n, t.Alts[i].hydrate(e))
		}
		return n
	case KMap:
		m, ok := v.(map[string]any)
		if !ok {
			return v
		}
		n := map[string]any{}
		for k, e := range m {
			n[k] = t.Elem.hydrate(e)
		}
		return n
	case KDisc:
		if a := t.branch(v); a != nil {
			return a.hydrate(v)
		}
	}
	return cloneData(v)
}

func cloneData(v any) any {
	switch x := v.(type) {
	case map[string]any:
		n := map[string]any{}
		for k, e := range x {
			n[k] = cloneData(e)
		}
		return n
	case []any:
		n := make([]any, 0, len(x))
		for _, e := range x {
			n = append(n, cloneData(e))
		}
		return n
	}
	return v
}

// dataEq compares data; 1 and 1.0 are equal, as JSON does not tell them apart.
func dataEq(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, has := y[k]
			if !has || !dataEq(e, f) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !dataEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case float64:
			return float64(x) == y
		}
		return false
	case float64:
		switch y := b.(type) {
		case int64:
			return x == float64(y)
		case float64:
			return x == y
		}
		return false
	}
	return a == b
}

// ---- generation

type genCfg struct {
	depth    int
	fancy    bool // non-identifier labels, odd strings
	tuples   bool
	disc     bool
	any      bool
	openness bool
	nulls    bool
	floats   bool
	unions   bool
	regex    bool
	consts   bool
	maps     bool // pattern constraints; CUE's subsumption does not handle them
	nullAll  bool // structs and lists may be null, too
	plain    bool // only types every encoder/Go type supports
	reserved bool // labels that also occur in lineages
}

func fullCfg() genCfg {
	return genCfg{depth: 3, fancy: true, tuples: true, disc: true, any: true, openness: true, nulls: true, nullAll: true, floats: true, unions: true, regex: true, consts: true, maps: true}
}

var words = []string{"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "name", "schema", "version", "input", "result", "lenses", "schemas", "examples", "from", "to"}
var fancyLabels = []string{"foo-bar", "with space", "9lives", "dot.ted", "ünïcode", "$ref", "true1", "a/b", "quote\"d", "snake_case", "CamelCase"}
var strs = []string{"", "x", "foo", "bar", "baz", "hello world", "日本語", "a\"b", "back\\slash", "new\nline", "100%", "<tag>&", "null", "true", "3", "~", "- x", "a: b", "#c", "%d%s"}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

func (c genCfg) label(r *rand.Rand, used map[string]bool) string {
	for {
		var n string
		if c.fancy && r.Intn(12) == 0 {
			n = pick(r, fancyLabels)
		} else if c.reserved && r.Intn(3) > 0 {
			n = pick(r, []string{"schemas", "schemas", "schema", "version", "0", "1", "lenses"})
		} else {
			n = pick(r, words)
			if r.Intn(3) == 0 {
				n += strconv.Itoa(r.Intn(10))
			}
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (c genCfg) scalar(r *rand.Rand) *Type {
	for {
		switch r.Intn(8) {
		case 0, 1:
			return &Type{K: KString}
		case 2:
			return &Type{K: KBool}
		case 3:
			names := []string{"int", "int32", "int64", "uint8", "uint32", "int8", "int16", "uint16", "uint64"}
			t := &Type{K: KInt, Num: pick(r, names)}
			if r.Intn(3) == 0 {
				lo, hi := int64(r.Intn(5)), int64(50+r.Intn(50))
				t.Lo, t.Hi = &lo, &hi
			}
			return t
		case 4:
			n := 2 + r.Intn(3)
			t := &Type{K: KEnum}
			seen := map[string]bool{}
			for len(t.Enum) < n {
				s := pick(r, []string{"foo", "bar", "baz", "qux", "quux", "one", "two", "three"})
				if c.fancy && r.Intn(12) == 0 {
					s = pick(r, []string{"two words", "3rd", "snake_case", "kebab-case", "Upper", "100%", "ünï"})
				}
				if !seen[s] {
					seen[s] = true
					t.Enum = append(t.Enum, s)
				}
			}
			return t
		case 5:
			if c.floats {
				return &Type{K: KFloat, Num: pick(r, []string{"float64", "float", "number", "float32"})}
			}
		case 6:
			if c.regex {
				return &Type{K: KRegex, Re: "^[a-z]+$"}
			}
		case 7:
			if c.consts {
				return &Type{K: KConst, Const: pick(r, []any{"lit", int64(7), true})}
			}
		}
	}
}

func (c genCfg) typ(r *rand.Rand, depth int) *Type {
	for {
		x := r.Intn(20)
		switch {
		case x < 10 || depth <= 0:
			t := c.scalar(r)
			if t.K != KConst && r.Intn(4) == 0 {
				t.HasDef, t.Def = true, t.gen(r)
			} else if c.nulls && t.K != KConst && t.K != KRegex && r.Intn(10) == 0 {
				t.Null = true
			}
			return t
		case x < 13:
			t := c.strct(r, depth-1, 1+r.Intn(3))
			t.Null = c.nullAll && r.Intn(7) == 0
			return t
		case x < 16:
			t := &Type{K: KList, Elem: c.typ(r, depth-1)}
			if t.Elem.isScalar() && !t.Elem.HasDef && !t.Elem.Null && r.Intn(5) == 0 {
				t.HasDef, t.Def = true, t.gen(r)
			} else if c.nullAll && r.Intn(6) == 0 {
				t.Null = true
			}
			return t
		case x == 16 && c.maps:
			return &Type{K: KMap, Elem: c.typ(r, depth-1)}
		case x == 17 && c.unions:
			alts := []*Type{{K: KString}, {K: KBool}, {K: KInt, Num: "int32"}}
			r.Shuffle(3, func(i, j int) { alts[i], alts[j] = alts[j], alts[i] })
			return &Type{K: KUnion, Alts: alts[:2+r.Intn(2)]}
		case x == 18 && c.disc:
			t := &Type{K: KDisc}
			for i := 0; i < 2+r.Intn(2); i++ {
				s := c.strct(r, 0, 1+r.Intn(2))
				s.Open = false
				s.drop("kind")
				s.Fields = append([]*Field{{Name: "kind", T: &Type{K: KConst, Const: string(rune('a' + i))}}}, s.Fields...)
				t.Alts = append(t.Alts, s)
			}
			return t
		case x == 19 && c.tuples && r.Intn(2) == 0:
			t := &Type{K: KTuple}
			for i := 0; i < 1+r.Intn(3); i++ {
				e := c.scalar(r)
				t.Alts = append(t.Alts, e)
			}
			return t
		case x == 19 && c.any:
			return &Type{K: KAny}
		}
	}
}

func (t *Type) isScalar() bool {
	switch t.K {
	case KString, KRegex, KEnum, KBool, KInt, KFloat, KConst, KUnion:
		return true
	}
	return false
}

func (c genCfg) strct(r *rand.Rand, depth, n int) *Type {
	t := &Type{K: KStruct}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := &Field{Name: c.label(r, used), T: c.typ(r, depth)}
		f.Opt = r.Intn(3) == 0
		if f.Opt {
			// An optional field's default only matters once the field is present
			f.T.HasDef, f.T.Def = false, nil
		}
		t.Fields = append(t.Fields, f)
	}
	if c.openness && r.Intn(12) == 0 {
		t.Open = true
	}
	return t
}

func genAny(r *rand.Rand, d int) any {
	switch x := r.Intn(8); {
	case x < 2 || d <= 0 && x > 5:
		return pick(r, strs)
	case x == 2:
		return r.Intn(2) == 0
	case x == 3:
		return int64(r.Intn(1000) - 500)
	case x == 4:
		return float64(r.Intn(1000)) + 0.5
	case x == 5:
		return nil
	case x == 6:
		l := []any{}
		for i := 0; i < r.Intn(3); i++ {
			l = append(l, genAny(r, d-1))
		}
		return l
	default:
		m := map[string]any{}
		for i := 0; i < r.Intn(3); i++ {
			m[pick(r, words)] = genAny(r, d-1)
		}
		return m
	}
}

// gen returns a random instance.
func (t *Type) gen(r *rand.Rand) any {
	if t.Null && r.Intn(3) == 0 {
		return nil
	}
	if t.HasDef && r.Intn(4) == 0 {
		return cloneData(t.Def)
	}
	switch t.K {
	case KString:
		return pick(r, strs)
	case KRegex:
		return pick(r, []string{"abc", "z", "qwerty"})
	case KEnum:
		return pick(r, t.Enum)
	case KBool:
		return r.Intn(2) == 0
	case KInt:
		lo, hi := t.rng()
		switch r.Intn(6) {
		case 0:
			return lo
		case 1:
			return hi
		}
		a, b := lo, hi
		if a < -100 {
			a = -100
		}
		if b > 100 {
			b = 100
		}
		return a + r.Int63n(b-a+1)
	case KFloat:
		lo, hi := -50.0, 50.0
		if t.Lo != nil {
			lo = float64(*t.Lo)
		}
		if t.Hi != nil {
			hi = float64(*t.Hi)
		}
		f := float64(int((lo+r.Float64()*(hi-lo))*4)) / 4
		if f < lo {
			f = lo
		}
		if f == 0 {
			f = 0.25 // CUE v0.5 cannot decode 0.0 into Go
		}
		if t.Num != "float" && r.Intn(3) == 0 {
			if int64(f) == 0 {
				return int64(1)
			}
			return int64(f)
		}
		return f
	case KConst:
		return t.Const
	case KStruct:
		m := map[string]any{}
		for _, f := range t.Fields {
			if f.Opt || f.T.fillable() {
				if r.Intn(2) == 0 {
					continue
				}
			}
			m[f.Name] = f.T.gen(r)
		}
		if t.Open && r.Intn(2) == 0 {
			m["zzExtra"] = genAny(r, 1)
		}
		return m
	case KList:
		l := []any{}
		for i := 0; i < r.Intn(4); i++ {
			l = append(l, t.Elem.gen(r))
		}
		return l
	case KTuple:
		l := []any{}
		for _, a := range t.Alts {
			l = append(l, a.gen(r))
		}
		return l
	case KMap:
		m := map[string]any{}
		for i := 0; i < r.Intn(3); i++ {
			m[pick(r, words)] = t.Elem.gen(r)
		}
		return m
	case KUnion:
		return pick(r, t.Alts).gen(r)
	case KDisc:
		a := pick(r, t.Alts)
		m := a.gen(r).(map[string]any)
		m["kind"] = a.field("kind").T.Const
		return m
	case KAny:
		v := genAny(r, 2)
		return v
	}
	panic("gen")
}

type Fault struct {
	Path  []string
	Class string // missing, excess, kind, bounds, length
	InDis bool   // inside a disjunction, where paths and details differ
}

func (f Fault) String() string { return f.Class + "@" + strings.Join(f.Path, ".") }

// wrongKind returns a value of a kind that t does not accept, nil fault if none.
func (t *Type) wrongKind(r *rand.Rand) (any, bool) {
	c := []any{"str", int64(12345), true, []any{}, map[string]any{}, nil, 0.5}
	r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
	for _, v := range c {
		if kindOf(v) != "" && !t.acceptsKind(v) {
			return v, true
		}
	}
	return nil, false
}

func kindOf(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case string:
		return "string"
	case bool:
		return "bool"
	case int64:
		return "int"
	case float64:
		return "float"
	case []any:
		return "list"
	case map[string]any:
		return "struct"
	}
	return ""
}

func (t *Type) acceptsKind(v any) bool {
	k := kindOf(v)
	if k == "null" {
		return t.Null || t.K == KAny
	}
	switch t.K {
	case KString, KRegex, KEnum:
		return k == "string"
	case KBool:
		return k == "bool"
	case KInt:
		return k == "int"
	case KFloat:
		return k == "float" || k == "int" && t.Num != "float"
	case KConst:
		return k == kindOf(t.Const)
	case KStruct, KMap, KDisc:
		return k == "struct"
	case KList, KTuple:
		return k == "list"
	case KUnion:
		for _, a := range t.Alts {
			if a.acceptsKind(v) {
				return true
			}
		}
		return false
	}
	return true
}

// outOfBounds returns a value of the right kind but outside of t.
func (t *Type) outOfBounds(r *rand.Rand) (any, bool) {
	switch t.K {
	case KRegex:
		return "NOT lower 1", true
	case KEnum:
		return "no-such-member", true
	case KInt:
		lo, hi := t.rng()
		if t.Num == "int" && t.Lo == nil {
			return nil, false
		}
		if t.Num == "int64" || t.Num == "uint64" || t.Num == "uint" {
			if lo == 0 {
				return int64(-1), true
			}
			return nil, false
		}
		if r.Intn(2) == 0 {
			return lo - 1, true
		}
		return hi + 1, true
	case KConst:
		switch t.Const.(type) {
		case string:
			return "other", true
		case int64:
			return int64(8), true
		case bool:
			return false, true
		}
	}
	return nil, false
}

// site is a place within a data tree, with the type governing it.
type site struct {
	t     *Type
	path  []string
	get   any
	set   func(any)
	inDis bool
}

func (t *Type) sites(v any, path []string, set func(any), inDis bool, out *[]site) {
	p := append([]string(nil), path...)
	dis := inDis || t.Null || t.HasDef || t.K == KUnion || t.K == KDisc
	*out = append(*out, site{t, p, v, set, dis})
	switch t.K {
	case KStruct:
		m, ok := v.(map[string]any)
		if !ok {
			return
		}
		for _, f := range t.Fields {
			if e, has := m[f.Name]; has {
				n := f.Name
				f.T.sites(e, append(p, n), func(x any) { m[n] = x }, inDis || t.Null, out)
			}
		}
	case KMap:
		m, ok := v.(map[string]any)
		if !ok {
			return
		}
		for _, k := range keys(m) {
			k := k
			t.Elem.sites(m[k], append(p, k), func(x any) { m[k] = x }, inDis, out)
		}
	case KList, KTuple:
		l, ok := v.([]any)
		if !ok {
			return
		}
		for i := range l {
			i := i
			e := t.Elem
			if t.K == KTuple {
				e = t.Alts[i]
			}
			e.sites(l[i], append(p, strconv.Itoa(i)), func(x any) { l[i] = x }, dis, out)
		}
	case KDisc:
		if a := t.branch(v); a != nil {
			a.sites(v, p, set, true, out)
		}
	}
}

// corrupt returns a copy of the valid data v with exactly one fault injected, or
// ok=false if the randomly chosen site offers none.
func (t *Type) corrupt(r *rand.Rand, v any) (nv any, f Fault, ok bool) {
	root := cloneData(v)
	var ss []site
	t.sites(root, nil, func(x any) { root = x }, false, &ss)
	s := pick(r, ss)
	f = Fault{Path: s.path, InDis: s.inDis}
	switch r.Intn(4) {
	case 0: // missing
		m, isM := s.get.(map[string]any)
		if !isM || s.t.K != KStruct {
			return nil, f, false
		}
		var c []string
		for _, fd := range s.t.Fields {
			if !fd.Opt && !fd.T.fillable() && !(s.inDis && fd.Name == "kind") {
				c = append(c, fd.Name)
			}
		}
		if len(c) == 0 {
			return nil, f, false
		}
		n := pick(r, c)
		delete(m, n)
		f.Class, f.Path = "missing", append(append([]string(nil), s.path...), n)
		fld := s.t.field(n)
		// absence of a struct is reported for its fields
		if fld.T.K == KStruct || fld.T.K == KTuple {
			f.InDis = true
		}
	case 1: // excess
		m, isM := s.get.(map[string]any)
		if !isM || s.t.K != KStruct || s.t.Open {
			return nil, f, false
		}
		m["zzUnknown"] = genAny(r, 1)
		f.Class, f.Path = "excess", append(append([]string(nil), s.path...), "zzUnknown")
	case 2:
		x, can := s.t.wrongKind(r)
		if !can {
			return nil, f, false
		}
		s.set(x)
		f.Class = "kind"
	case 3:
		if s.t.K == KTuple {
			l, isL := s.get.([]any)
			if !isL || len(l) == 0 {
				return nil, f, false
			}
			if r.Intn(2) == 0 {
				s.set(append(append([]any{}, l...), "more"))
			} else {
				s.set(append([]any{}, l[:len(l)-1]...))
			}
			f.Class = "length"
			f.InDis = true
			break
		}
		x, can := s.t.outOfBounds(r)
		if !can {
			return nil, f, false
		}
		s.set(x)
		f.Class = "bounds"
	}
	if t.valid(root) { // e.g. the sites of a value overlapping another alternative
		return nil, f, false
	}
	return root, f, true
}
