package main

// P29: a lineage means the same however it is written.

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Check{ID: "P29", Quick: 260, Thorough: 6000,
		Rule: "random lineages of 1-5 versions, each written in a random combination of forms: bare, embedding or unified with thema.#Lineage, as a conjunction of parts, at the root or at a path, in one file, several, or an imported package; schemas literal, as hidden fields or definitions, as extensions of their predecessor, nested structs lifted into definitions, common fields moved to the joinSchema; lenses literal or by reference; versions and names computed; fields in any order. Bound, they must have the versions, membership, defaults and translations of the model; distinct by source text",
		Run:  runP29})
}

// form is one way of writing a lineage down.
type form struct {
	c     *Ctx
	l     *Lin
	where int
	tags  []string
	decls []string // helper declarations beside the lineage
	n     int
}

func (f *form) tag(s string) {
	if !slices.Contains(f.tags, s) {
		f.tags = append(f.tags, s)
	}
}

// sigils: a lineage is closed, so that its own helpers need be hidden unless it
// embeds thema.#Lineage.
func (f *form) sigils(all []string) []string {
	if f.where == 0 {
		all = slices.DeleteFunc(slices.Clone(all), func(s string) bool { return !strings.HasPrefix(s, "_") })
	}
	return all
}

// typ renders a type, lifting some nested structs into definitions or hidden fields.
func (f *form) typ(t *Type, lift bool) string {
	if !lift || t.K != KStruct || t.HasDef || t.Null || t.Open {
		return t.cue()
	}
	var b strings.Builder
	b.WriteString("{\n")
	for _, x := range t.Fields {
		src := x.T.cue()
		if x.T.K == KStruct && !x.T.HasDef && !x.T.Null && !x.T.Open {
			src = f.typ(x.T, true)
			if f.c.Intn(2) == 0 {
				f.n++
				n := fmt.Sprintf("%sN%d", pick(f.c.Rand, f.sigils([]string{"#", "_", "_#", ""})), f.n)
				f.decls = append(f.decls, n+": "+src)
				f.tag("lifted-" + strings.TrimRight(n, "N0123456789"))
				src = n
			}
		}
		opt := ""
		if x.Opt {
			opt = "?"
		}
		fmt.Fprintf(&b, "%s%s: %s\n", cueLabel(x.Name), opt, src)
	}
	b.WriteString("}")
	return b.String()
}

// common returns the fields that all schemas share, literally.
func (l *Lin) common() []*Field {
	var out []*Field
	for _, x := range l.Schs[0].T.Fields {
		all := true
		for _, s := range l.Schs {
			y := s.T.field(x.Name)
			all = all && y != nil && y.Opt == x.Opt && y.T.cue() == x.T.cue()
		}
		if all {
			out = append(out, x)
		}
	}
	return out
}

// extends: t has all fields of p, as they are, and more.
func extends(p, t *Type) (*Type, bool) {
	if p.Open || t.Open || len(t.Fields) <= len(p.Fields) {
		return nil, false
	}
	more := &Type{K: KStruct}
	for _, x := range p.Fields {
		y := t.field(x.Name)
		if y == nil || y.Opt != x.Opt || y.T.cue() != x.T.cue() {
			return nil, false
		}
	}
	for _, y := range t.Fields {
		if p.field(y.Name) == nil {
			more.Fields = append(more.Fields, y)
		}
	}
	return more, true
}

// fields renders the lineage's own fields, one string each.
func (f *form) fields() []string {
	c, l := f.c, f.l
	var out []string
	switch c.Intn(4) {
	case 0:
		f.decls = append(f.decls, fmt.Sprintf("_theName: %s", cueLit(l.Name)))
		out = append(out, `name: "\(_theName)"`)
		f.tag("computed-name")
	default:
		out = append(out, "name: "+cueLit(l.Name))
	}

	// joinSchema
	drop := map[string]bool{}
	if cs := l.common(); len(cs) > 0 && c.Intn(2) == 0 {
		j := &Type{K: KStruct}
		for _, x := range cs {
			if c.Intn(3) > 0 {
				j.Fields = append(j.Fields, x)
				drop[x.Name] = c.Intn(3) > 0 // or repeated in the schema
			}
		}
		if len(j.Fields) > 0 {
			src := f.typ(j, c.Intn(2) == 0)
			f.tag("join")
			if c.Intn(3) == 0 {
				f.n++
				n := fmt.Sprintf("_join%d", f.n)
				f.decls = append(f.decls, n+": "+src)
				src = n
				f.tag("join-ref")
			}
			out = append(out, "joinSchema: "+src)
		}
	}
	strip := func(t *Type) *Type {
		n := t.clone()
		n.Fields = slices.DeleteFunc(n.Fields, func(x *Field) bool { return drop[x.Name] })
		return n
	}

	sigils := []string{"#", "_", "_#"}
	for _, d := range drop {
		if d {
			sigils = []string{"_"} // a definition is closed: it admits no more fields
		}
	}
	lift := c.Intn(2) == 0
	names := make([]string, len(l.Schs))
	var ss []string
	for i, s := range l.Schs {
		src := ""
		if i > 0 && names[i-1] != "" && c.Intn(2) == 0 {
			if more, ok := extends(strip(l.Schs[i-1].T), strip(s.T)); ok {
				// embedding extends definitions as well
				src = fmt.Sprintf("{\n%s\n%s", names[i-1], strings.TrimPrefix(more.cue(), "{"))
				f.tag("extends")
			}
		}
		if src == "" {
			src = f.typ(strip(s.T), lift)
		}
		if c.Intn(2) == 0 {
			n := fmt.Sprintf("%sS%d", pick(c.Rand, f.sigils(sigils)), i)
			names[i] = n
			f.decls = append(f.decls, n+": "+src)
			f.tag("schema-" + strings.TrimRight(n, "S0123456789"))
			src = n
		}
		ver := verList(s.V)
		switch c.Intn(6) {
		case 0:
			f.n++
			n := fmt.Sprintf("_v%d", f.n)
			f.decls = append(f.decls, fmt.Sprintf("%s: %d", n, s.V[0]))
			ver = fmt.Sprintf("[%s, %d+0]", n, s.V[1])
			f.tag("computed-version")
		case 1:
			f.n++
			n := fmt.Sprintf("_v%d", f.n)
			f.decls = append(f.decls, n+": "+ver)
			ver = n
			f.tag("computed-version")
		}
		parts := []string{"version: " + ver, "schema: " + src}
		if c.Intn(2) == 0 {
			slices.Reverse(parts)
		}
		e := "{\n" + strings.Join(parts, "\n") + "\n}"
		if c.Intn(5) == 0 {
			f.n++
			n := fmt.Sprintf("_def%d", f.n)
			f.decls = append(f.decls, n+": "+e)
			e = n
			f.tag("schemadef-ref")
		}
		ss = append(ss, e)
	}
	list := "[\n" + strings.Join(ss, ",\n") + ",\n]"
	if c.Intn(6) == 0 {
		f.decls = append(f.decls, "_allSchemas: "+list)
		list = "_allSchemas"
		f.tag("schemas-ref")
	}
	out = append(out, "schemas: "+list)

	var ls []string
	for _, x := range l.Lenses {
		e := x.cue()
		switch c.Intn(4) {
		case 0:
			f.n++
			n := fmt.Sprintf("_lens%d", f.n)
			f.decls = append(f.decls, n+": "+e)
			e = n
			f.tag("lens-ref")
		case 1: // the result through an auxiliary field
			e = strings.Replace(e, "result: {", "_out: {", 1)
			e = strings.TrimSuffix(e, "}") + "result: _out\n}"
			f.tag("lens-aux")
		}
		ls = append(ls, e)
	}
	if len(ls) > 0 || c.Intn(2) == 0 {
		out = append(out, "lenses: [\n"+strings.Join(ls, ",\n")+"\n]")
	}
	c.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// build writes the lineage in a random form and evaluates it.
func (f *form) build(rt *thema.Runtime) (cue.Value, string) {
	c := f.c
	f.where = c.Intn(9)
	own := f.fields()
	decls := f.decls
	c.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	comment := func(xs []string) string {
		var b strings.Builder
		for _, x := range xs {
			if c.Intn(4) == 0 {
				b.WriteString("// a comment\n")
			}
			b.WriteString(x + "\n")
		}
		return b.String()
	}
	imp := "import \"github.com/grafana/thema\"\n\n"
	unify := "thema.#Lineage"
	if c.Intn(4) == 0 {
		imp = "import th \"github.com/grafana/thema\"\n\n"
		unify = "th.#Lineage"
	}
	files := fstest.MapFS{"cue.mod/module.cue": {Data: []byte("module: \"example.com/m\"\n")}}
	put := func(name, src string) { files[name] = &fstest.MapFile{Data: []byte(src)} }
	at, dir := "", "kind"
	switch f.where {
	case 0: // bare
		f.tag("bare")
		src := comment(append(own, decls...))
		return rt.Context().CompileString(src, cue.Filename("lin.cue")), src
	case 1: // bare, at a path, with the helpers beside it
		f.tag("bare-at-path")
		src := comment(append([]string{"deep: lin: {\n" + comment(own) + "}"}, decls...))
		return rt.Context().CompileString(src, cue.Filename("lin.cue")).LookupPath(cue.ParsePath("deep.lin")), src
	case 2:
		f.tag("embeds-root")
		put("kind/a.cue", "package kind\n\n"+imp+unify+"\n"+comment(append(own, decls...)))
	case 3:
		f.tag("unified-at-path")
		at = "lin"
		put("kind/a.cue", "package kind\n\n"+imp+comment(append([]string{"lin: " + unify + " & {\n" + comment(own) + "}"}, decls...)))
	case 4: // spread over files; package-scoped hidden names are shared
		f.tag("files")
		n := 2 + c.Intn(2)
		parts := make([][]string, n)
		for _, x := range own {
			k := c.Intn(n)
			parts[k] = append(parts[k], "lin: "+x)
		}
		for _, x := range decls {
			k := c.Intn(n)
			parts[k] = append(parts[k], x)
		}
		for k, p := range parts {
			src := "package kind\n\n"
			if k == 0 {
				src += imp + "lin: " + unify + "\n"
			}
			put(fmt.Sprintf("kind/f%d.cue", k), src+comment(p))
		}
		at = "lin"
	case 5: // in a package that another one imports
		f.tag("imported")
		put("other/a.cue", "package other\n\n"+imp+comment(append([]string{"Lin: " + unify + " & {\n" + comment(own) + "}"}, decls...)))
		put("kind/a.cue", "package kind\n\nimport \"example.com/m/other\"\n\nmine: other.Lin\n")
		at = "mine"
	case 6: // schemas in an imported package of definitions
		f.tag("embeds-at-path")
		at = `"a b"`
		put("kind/a.cue", "package kind\n\n"+imp+comment(append([]string{"\"a b\": {\n" + unify + "\n" + comment(own) + "}"}, decls...)))
	case 7, 8: // a conjunction of parts
		n := 1 + c.Intn(4)
		parts := make([][]string, n)
		for _, x := range own {
			k := c.Intn(n)
			parts[k] = append(parts[k], x)
		}
		var terms []string
		for _, p := range parts {
			if c.Intn(2) == 0 { // by reference
				h := fmt.Sprintf("_part%d", len(terms))
				decls = append(decls, h+": {\n"+comment(p)+"}")
				terms = append(terms, h)
				continue
			}
			terms = append(terms, "{\n"+comment(p)+"}")
		}
		if f.where == 7 {
			f.tag("parts")
			src := comment(append([]string{"lin: " + strings.Join(terms, " & ")}, decls...))
			return rt.Context().CompileString(src, cue.Filename("lin.cue")).LookupPath(cue.ParsePath("lin")), src
		}
		f.tag("parts-unified")
		m := 1 + c.Intn(2)
		for i := 0; i < m; i++ {
			k := c.Intn(len(terms) + 1)
			terms = append(terms[:k], append([]string{unify}, terms[k:]...)...)
		}
		if m > 1 {
			f.tag("unified-twice")
		}
		at = "lin"
		put("kind/a.cue", "package kind\n\n"+imp+comment(append([]string{"lin: " + strings.Join(terms, " & ")}, decls...)))
	}
	var src strings.Builder
	for _, n := range sortedKeys(files) {
		fmt.Fprintf(&src, "-- %s --\n%s", n, files[n].Data)
	}
	inst, err := load.InstanceWithThema(files, dir, load.Package("kind"))
	if err != nil {
		c.note("source:\n%s", src.String())
		c.fail("load", "the lineage does not load: %s", oneLine(err))
		return cue.Value{}, ""
	}
	v := rt.Context().BuildInstance(inst)
	if at != "" {
		v = v.LookupPath(cue.ParsePath(at))
	}
	return v, src.String()
}

func sortedKeys(m fstest.MapFS) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runP29(c *Ctx) {
	lc := stdLin()
	lc.min, lc.max = 1, 5
	lc.pMajor = 0.35
	lc.lacunas = c.Intn(2) == 0
	l := genLin(c.Rand, lc)
	f := &form{c: c, l: l}
	rt := newRT()
	v, src := f.build(rt)
	if src == "" {
		return
	}
	sort.Strings(f.tags)
	c.note("forms %v:\n%s", f.tags, src)
	lin, err := thema.BindLineage(v, rt)
	for _, t := range f.tags {
		c.count("form:" + t)
	}
	c.distinct(src)
	c.sample("forms %v of a lineage with versions %s", f.tags, l.shape())
	if err != nil {
		c.fail("bind", "a lineage that is valid in another form is rejected (%v): %s", f.tags, oneLine(err))
		return
	}
	if lin.Name() != l.Name {
		c.fail("name", "the lineage is named %q, want %q", lin.Name(), l.Name)
	}
	if fmt.Sprint(allVers(lin)) != fmt.Sprint(func() (vs []Ver) {
		for _, s := range l.Schs {
			vs = append(vs, s.V)
		}
		return
	}()) {
		c.fail("versions", "the lineage has versions %v, want %s", allVers(lin), l.shape())
		return
	}
	for i, s := range l.Schs {
		sch := thema.SchemaP(lin, sv(s.V))
		// membership
		for k := 0; k < 4; k++ {
			var d any
			switch k {
			case 0, 1:
				d = s.T.gen(c.Rand)
			case 2:
				var ok bool
				if d, _, ok = s.T.corrupt(c.Rand, s.T.gen(c.Rand)); !ok {
					continue
				}
			case 3:
				d = l.Schs[c.Intn(len(l.Schs))].T.gen(c.Rand)
			}
			if s.T.ambiguous(d) {
				continue
			}
			if _, isMap := d.(map[string]any); !isMap {
				continue
			}
			want := s.T.valid(d)
			inst, err := sch.Validate(decode(rt, d))
			c.eval(fmt.Sprintf("validate:%v", want))
			if (err == nil) != want {
				c.fail("membership", "%s of %s (schema %d): valid=%v, but Validate says %v", jsonText(d, nil), s.V, i, want, err)
				continue
			}
			if err != nil {
				continue
			}
			if got, err := dataOf(inst.Hydrate()); err != nil || !dataEq(got, s.T.hydrate(d)) {
				c.fail("hydrate", "hydrating %s of %s: want %s, got %s %v", jsonText(d, nil), s.V, jsonText(s.T.hydrate(d), nil), jsonText(got, nil), err)
			}
			if k > 0 && c.Intn(2) == 0 {
				continue
			}
			for _, t := range l.Schs {
				c.checkTranslate(l, inst, d, s.V, t.V)
			}
		}
	}
}
