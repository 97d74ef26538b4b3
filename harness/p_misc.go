package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/grafana/thema"
)

func init() {
	register(&Check{ID: "P17", Quick: 3600, Thorough: 20000,
		Rule: "random lineages compared with themselves rewritten (fields reordered, reformatted), with schemas appended, with the last or several schemas removed, and with one schema at any position changed by any compatible or breaking change; distinct by lineage and variant",
		Run:  runP17})
	register(&Check{ID: "P18", Quick: 4000, Thorough: 30000,
		Rule: "random schemas, instances with any subset of the schema-determined values absent; hydrated data is compared with the model's, dehydrated data with what the model allows to be absent; distinct by schema and data; non-trivial: something was added or removed",
		Run:  runP18})
	register(&Check{ID: "P21", Quick: 4500, Thorough: 15000,
		Rule: "lineages with any number of examples per schema, with hostile names, complete or relying on defaults, or with one faulty example; names, data and schema of each example are compared with the declaration; distinct by lineage",
		Run:  runP21})
}

func cloneLin(l *Lin) *Lin {
	n := &Lin{Name: l.Name, Join: l.Join, Bare: l.Bare, Lenses: l.Lenses}
	for _, s := range l.Schs {
		n.Schs = append(n.Schs, &Sch{V: s.V, T: s.T.clone(), Op: s.Op, Ren: s.Ren})
	}
	return n
}

// permute shuffles the fields of every struct: another way to write the same type.
func (t *Type) permute(r *rand.Rand) {
	r.Shuffle(len(t.Fields), func(i, j int) { t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i] })
	for _, f := range t.Fields {
		f.T.permute(r)
	}
	if t.Elem != nil {
		t.Elem.permute(r)
	}
	if t.K == KDisc || t.K == KTuple || t.K == KUnion {
		for _, a := range t.Alts {
			a.permute(r)
		}
	}
}

func runP17(c *Ctx) {
	if c.Case == 0 {
		probeP17(c)
	}
	rt := newRT()
	lc := stdLin()
	lc.lacunas = false
	lc.anyMinor = true
	lc.join = c.Intn(6) == 0
	l := genLin(c.Rand, lc)
	old := c.mustBind(rt, l)
	if old == nil {
		return
	}
	nrt := rt
	if c.Intn(3) == 0 {
		nrt = newRT() // published lineages come from other processes
		var err error
		if old, err = bind(nrt, l); err != nil {
			c.fail("bind", "the lineage binds once only: %s", err)
			return
		}
	}
	_ = nrt
	try := func(what string, n *Lin, want bool) {
		src := n.bodyL(false)
		lin, err := bindSrc(nrt, src, thema.SkipBuggyChecks())
		if err != nil {
			c.count("unbindable:" + what)
			return
		}
		err = thema.IsAppendOnly(old, lin)
		c.eval(fmt.Sprintf("%s:%v", what, want))
		c.distinct(l.body(), src)
		if (err == nil) != want {
			c.note("new lineage:\n%s", src)
			c.fail("append-only:"+what, "%s (%v): append-only is %v, want %v: %s", what, n.Schs[len(n.Schs)-1].Op, err == nil, want, oneLine(err))
		}
	}
	p := cloneLin(l)
	for _, s := range p.Schs {
		s.T.permute(c.Rand)
	}
	try("same", p, true)
	// appended
	a := cloneLin(p)
	for k := 0; k < 1+c.Intn(3); k++ {
		last := a.Schs[len(a.Schs)-1]
		s := &Sch{T: last.T.clone(), Ren: map[string]string{}}
		if c.Intn(2) == 0 {
			s.V = Ver{last.V[0] + 1, 0}
			s.Op = []string{evolve(c.Rand, lc, breakOps, s)}
		} else {
			s.V = Ver{last.V[0], last.V[1] + 1}
			s.Op = []string{evolve(c.Rand, lc, compatOps, s)}
		}
		a.Schs = append(a.Schs, s)
	}
	try("appended", a, true)
	// removed
	if len(l.Schs) > 1 {
		d := cloneLin(l)
		d.Schs = d.Schs[:1+c.Intn(len(d.Schs)-1)]
		try("removed", d, false)
	}
	// changed in place, with or without schemas appended as well
	for k := 0; k < 3; k++ {
		base, what := cloneLin(l), "changed"
		if c.Intn(2) == 0 {
			base, what = cloneLin(a), "changed-and-appended"
		}
		i := c.Intn(len(l.Schs))
		s := base.Schs[i]
		before := s.T.cue()
		ops := compatOps
		if c.Intn(2) == 0 {
			ops = breakOps
		}
		op := evolve(c.Rand, lc, ops, s)
		if op == "" || s.T.cue() == before || op == "reorder" || op == "nested-reorder" || strings.HasSuffix(op, "add-default") || s.T.listBlind(l.Schs[i].T) {
			continue
		}
		if f := s.T.field("joined"); l.Join != nil && (f == nil || f.Opt || f.T.cue() != "string") {
			continue // the joinSchema puts the field back
		}
		c.note("changed %s by %s:\n%s\n->\n%s", s.V, op, before, s.T.cue())
		try(what, base, false)
	}
	// the joinSchema is part of every published schema
	if l.Join != nil && l.Bare {
		n := cloneLin(pick(c.Rand, []*Lin{l, a}))
		n.Join = pick(c.Rand, []*Type{
			{K: KStruct, Fields: []*Field{{"joined", false, &Type{K: KInt, Num: "int64"}}}},
			{K: KStruct, Fields: []*Field{{"joined", false, &Type{K: KEnum, Enum: []string{"p", "q"}}}}},
			{K: KStruct, Fields: []*Field{{"joined", false, &Type{K: KString}}, {"joinedToo", true, &Type{K: KString}}}},
			{K: KStruct, Fields: []*Field{{"joined", true, &Type{K: KString}}}},
		})
		// the schemas' own text stays
		for i, s := range n.Schs {
			s.Src = a.own(a.Schs[i].T).cue()
		}
		try("join-changed", n, false)
	}
	// a schema replaced by its successor: everything after it moves up
	if len(l.Schs) > 2 {
		i := c.Intn(len(l.Schs) - 1)
		s := cloneLin(l)
		if !s.Schs[i].T.listBlind(s.Schs[i+1].T) && !sameUpToOrder(s.Schs[i].T, s.Schs[i+1].T) && !strings.Contains(strings.Join(s.Schs[i+1].Op, " "), "add-default") {
			s.Schs[i].T = s.Schs[i+1].T.clone()
			try("replaced", s, false)
		}
	}
}

func sameUpToOrder(a, b *Type) bool { return canonType(a) == canonType(b) }

func canonType(t *Type) string {
	n := t.clone()
	n.sortFields()
	return n.cue()
}

func (t *Type) sortFields() {
	for i := range t.Fields {
		for j := i + 1; j < len(t.Fields); j++ {
			if t.Fields[j].Name < t.Fields[i].Name {
				t.Fields[i], t.Fields[j] = t.Fields[j], t.Fields[i]
			}
		}
	}
	for _, f := range t.Fields {
		f.T.sortFields()
	}
	if t.Elem != nil {
		t.Elem.sortFields()
	}
	for _, a := range t.Alts {
		a.sortFields()
	}
}

// listBlind: the types differ only in what CUE v0.5's subsumption does not see
// (known findings): the element types of open lists.
func (t *Type) listBlind(o *Type) bool {
	a, b := t.clone(), o.clone()
	a.blind()
	b.blind()
	return canonType(a) == canonType(b)
}

func (t *Type) blind() {
	if t.K == KList {
		t.Elem = &Type{K: KString}
	}
	for _, f := range t.Fields {
		f.T.blind()
	}
	for _, a := range t.Alts {
		a.blind()
	}
}

func probeP17(c *Ctx) {
	rt := newRT()
	mk := func(s string) thema.Lineage {
		lin, err := bindSrc(rt, "name: \"x\"\nschemas: [{version: [0, 0], schema: "+s+"}]\nlenses: []")
		must(err)
		return lin
	}
	for _, p := range [][3]string{
		{"list-elem", "{a: [...string]}", "{a: [...int]}"},
		{"add-default", "{a: string}", "{a: string | *\"newly\"}"},
	} {
		c.eval("finding-probe")
		if thema.IsAppendOnly(mk(p[1]), mk(p[2])) == nil {
			c.fail("finding:"+p[0], "%s replaced by %s is append-only", p[1], p[2])
		}
	}
}

// ---- P18

func runP18(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.max = 3
	lc.min = 1
	lc.anyMinor = true
	lc.lacunas = false
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	for i, s := range l.Schs {
		sch := lin.All()[i]
		for k := 0; k < 4; k++ {
			d := s.T.gen(c.Rand)
			inst, err := sch.Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "%s %s: %s", s.V, jsonText(d, nil), oneLine(err))
				continue
			}
			want := s.T.hydrate(d)
			c.sample("%s hydrates to %s", jsonText(d, nil), jsonText(want, nil))
			h := inst.Hydrate()
			if !dataEq(want, d) {
				c.distinct(s.T.cue(), jsonText(d, nil))
			}
			c.eval("hydrate")
			got, err := dataOf(h)
			if err != nil || !dataEq(got, want) {
				c.fail("hydrate", "%s of %s hydrates to %s, want %s %v", jsonText(d, nil), s.V, show(got), jsonText(want, nil), err)
				continue
			}
			if h.Schema().Version() != sch.Version() {
				c.fail("schema", "hydrated instance is of %s", h.Schema().Version())
			}
			if orig, err := dataOf(inst); err != nil || !dataEq(orig, d) {
				c.fail("purity", "hydrating changed the instance from %s to %s", jsonText(d, nil), show(orig))
			}
			if _, err := sch.Validate(h.Underlying()); err != nil {
				c.fail("hydrate", "hydrated %s is not valid: %s", show(got), oneLine(err))
			}
			// dehydrate the original and the hydrated
			for _, x := range []*thema.Instance{inst, h} {
				in, _ := dataOf(x)
				y := x.Dehydrate()
				c.eval("dehydrate")
				gd, err := dataOf(y)
				if err != nil {
					c.fail("dehydrate", "%s of %s dehydrates to a value without data: %s", show(in), s.V, oneLine(err))
					continue
				}
				if !s.T.valid(gd) {
					c.fail("dehydrate", "%s of %s dehydrates to %s, which is not valid", show(in), s.V, show(gd))
				} else if hyd := s.T.hydrate(gd); !dataEq(hyd, want) {
					c.fail("dehydrate", "%s of %s dehydrates to %s, which stands for %s, want %s", show(in), s.V, show(gd), jsonText(hyd, nil), jsonText(want, nil))
				}
				if p := s.T.redundant(gd, ""); p != "" {
					c.fail("dehydrate-left", "%s of %s dehydrates to %s, where the default at %s remains", show(in), s.V, show(gd), p)
				}
				if back, err := dataOf(y.Hydrate()); err != nil || !dataEq(back, want) {
					c.fail("rehydrate", "%s dehydrated and hydrated is %s %v", show(in), show(back), err)
				}
				if orig, err := dataOf(x); err != nil || !dataEq(orig, in) {
					c.fail("purity", "dehydrating changed the instance from %s to %s", show(in), show(orig))
				}
			}
		}
	}
}

// redundant finds a required scalar field, reached through structs, whose value
// is present and the schema's default.
func (t *Type) redundant(v any, path string) string {
	m, ok := v.(map[string]any)
	if !ok || t.K != KStruct || t.Null {
		return ""
	}
	for _, f := range t.Fields {
		e, has := m[f.Name]
		if !has || f.Opt {
			continue
		}
		if f.T.HasDef && !f.T.Null && f.T.isScalar() && fmt.Sprintf("%T", e) == fmt.Sprintf("%T", f.T.Def) && dataEq(e, f.T.Def) {
			return path + "." + f.Name
		}
		if p := f.T.redundant(e, path+"."+f.Name); p != "" {
			return p
		}
	}
	return ""
}

// ---- P21

func runP21(c *Ctx) {
	rt := newRT()
	if c.Case == 0 {
		probeP21(c, rt)
	}
	lc := stdLin()
	lc.max = 4
	lc.anyMinor = true
	lc.lacunas = false
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	for _, s := range l.Schs {
		if c.Intn(4) == 0 {
			continue
		}
		s.Ex = map[string]any{}
		for k := 0; k < c.Intn(9); k++ {
			s.Ex[pick(c.Rand, []string{"a", "simple", "TO1", "with-dash", "with space", "9", "ünï", "a.b", "schema", "quo\"te", "true"})] = s.T.gen(c.Rand)
		}
	}
	if c.Intn(4) == 0 { // one faulty example
		s := pick(c.Rand, l.Schs)
		d, f, ok := s.T.corrupt(c.Rand, s.T.gen(c.Rand))
		if !ok || f.Class == "missing" || s.T.valid(d) || s.T.ambiguous(d) {
			return
		}
		if s.Ex == nil {
			s.Ex = map[string]any{}
		}
		s.Ex["bad"] = d
		c.note("example of %s with fault %s\n%s", s.V, f, l.body())
		_, err := bind(rt, l)
		c.eval("faulty-example")
		c.distinct(l.body())
		if err == nil {
			c.fail("faulty", "the example %s, which %s does not admit (%s), is accepted", jsonText(d, nil), s.V, f)
		} else if !is(err, errInvalidLineage) {
			c.fail("class", "the error is not ErrInvalidLineage: %s", oneLine(err))
		}
		return
	}
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	for i, s := range l.Schs {
		ex := lin.All()[i].Examples()
		c.eval(fmt.Sprintf("examples:%d", len(s.Ex)))
		c.distinct(l.body(), s.V)
		if ex == nil {
			c.fail("nil", "Examples() of %s is nil", s.V)
		}
		if len(ex) != len(s.Ex) {
			c.fail("set", "%s has %d examples, want %d", s.V, len(ex), len(s.Ex))
		}
		for n, d := range s.Ex {
			inst := ex[n]
			if inst == nil {
				c.fail("name", "%s lacks the example %q: %v", s.V, n, ex)
				continue
			}
			c.eval("example")
			want := s.T.hydrate(d)
			c.sample("%s %q: %s", s.V, n, jsonText(want, nil))
			if got, err := dataOf(inst); err != nil || !dataEq(got, want) {
				c.fail("data", "example %q of %s is %s, want %s %v", n, s.V, show(got), jsonText(want, nil), err)
			}
			if inst.Schema().Version() != sv(s.V) || inst.Schema().Lineage().Name() != l.Name {
				c.fail("schema", "example %q of %s is of %s", n, s.V, inst.Schema().Version())
			}
			if _, err := lin.All()[i].Validate(inst.Underlying()); err != nil {
				c.fail("valid", "example %q of %s is not valid: %s", n, s.V, oneLine(err))
			}
		}
	}
}

func probeP21(c *Ctx, rt *thema.Runtime) {
	c.eval("finding-probe")
	if _, err := bindSrc(rt, "name: \"x\"\nschemas: [{version: [0, 0], schema: {a: string}, examples: {bad: {}}}]\nlenses: []"); err == nil {
		c.fail("finding:incomplete-example", "the incomplete example {} of {a: string} is accepted")
	}
}
