package main

import (
	"fmt"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
)

func init() {
	register(&Check{ID: "P03", Quick: 6000, Thorough: 100000,
		Rule: "random evolving lineages, either correct or with exactly one fault (breaking change declared minor, compatible change declared major, version skipped, repeated, out of order, not starting at 0.0, not a lineage at all); the model knows which; non-trivial: more than one schema; distinct by lineage text",
		Run:  runP03})
	register(&Check{ID: "P04", Quick: 9000, Thorough: 40000,
		Rule: "random version shapes with the exact set of Go lenses, shuffled and split over options, or with one missing, extra, duplicate or nil lens; and the exact set of CUE lenses in canonical or permuted order; distinct by shape and fault",
		Run:  runP04})
}

// rejected checks that bind refused, with the right class of error.
func (c *Ctx) rejected(what string, lin thema.Lineage, err error, class error) {
	c.eval("reject:" + what)
	if err == nil {
		c.fail("accepted:"+what, "invalid lineage is accepted: %s", what)
		return
	}
	if lin != nil {
		c.fail("half:"+what, "a lineage is returned along with an error: %s", what)
	}
	if class != nil && !is(err, class) {
		c.fail("class:"+what, "%s: error is not %q: %s", what, class, oneLine(err))
	}
	if err.Error() == "" {
		c.fail("empty:"+what, "%s: empty error message", what)
	}
}

func runP03(c *Ctx) {
	lc := stdLin()
	lc.any, lc.openness, lc.anyMinor = true, c.Intn(4) == 0, true
	lc.min, lc.max = 3, 6
	lc.join = c.Intn(6) == 0
	l := genLin(c.Rand, lc)
	if c.Intn(2) == 0 {
		l.Lenses = nil // lenses are not what is decided here
	}
	rt := newRT()
	fault := c.Case % 12
	if len(l.Schs) < 2 {
		return
	}
	i := 1 + c.Intn(len(l.Schs)-1)
	switch fault {
	default:
		lin := c.mustBind(rt, l)
		c.eval("accept")
		c.distinct(l.body())
		c.sample("accept %s; changes %v", l.shape(), l.Schs[len(l.Schs)-1].Op)
		if lin == nil {
			return
		}
		if len(lin.All()) != len(l.Schs) {
			c.fail("navigation", "bound lineage has %d schemas, want %d", len(lin.All()), len(l.Schs))
		}
		// binding is a function of the text
		rt2 := newRT()
		if _, err := bind(rt2, l); err != nil {
			c.fail("bind", "second binding fails: %s", err)
		}
	case 1, 2: // breaking change declared as minor
		s := &Sch{V: Ver{l.Schs[i-1].V[0], l.Schs[i-1].V[1] + 1}, T: l.Schs[i-1].T.clone(), Ren: map[string]string{}}
		op := evolve(c.Rand, lc, breakOps, s)
		if op == "" {
			return
		}
		if l.Join != nil && (s.T.field("joined") == nil || s.T.field("joined").T.cue() != "string" || s.T.field("joined").Opt) {
			return // the joinSchema puts the field back
		}
		l.Schs = append(l.Schs[:i:i], s)
		l.Lenses = nil
		c.note("lineage:\n%s", l.body())
		lin, err := bind(rt, l)
		c.count("minor-break:" + op)
		c.distinct(l.body())
		c.sample("reject: %s declared as %s", op, s.V)
		c.rejected("breaking-minor", lin, err, errInvalidLineage)
	case 3, 4: // compatible change declared as major
		s := &Sch{V: Ver{l.Schs[i-1].V[0] + 1, 0}, T: l.Schs[i-1].T.clone(), Ren: map[string]string{}}
		op := "none"
		if c.Intn(5) > 0 {
			op = evolve(c.Rand, lc, append(append([]evolution{}, compatOps...), subsumeOnlyOps...), s)
			if op == "" {
				return
			}
		}
		l.Schs = append(l.Schs[:i:i], s)
		l.Lenses = nil
		c.note("lineage:\n%s", l.body())
		lin, err := bind(rt, l)
		c.count("major-compat:" + op)
		c.distinct(l.body())
		c.rejected("compatible-major", lin, err, errInvalidLineage)
	case 5: // faults in the version sequence, compatibility checks or not
		l.Lenses = nil
		var opts []thema.BindOption
		if c.Intn(2) == 0 {
			opts = append(opts, thema.SkipBuggyChecks())
		}
		var what string
		var class error = errInvalidLineage
		switch k := c.Intn(5); k {
		case 0:
			what = "gap"
			if l.Schs[i].V[1] == 0 {
				shiftFrom(l, i, 1, 0)
			} else {
				shiftFrom(l, i, 0, uint(1+c.Intn(3)))
			}
		case 1:
			what = "first-not-zero"
			if c.Intn(2) == 0 {
				shiftFrom(l, 0, uint(1+c.Intn(2)), 0)
			} else {
				maj := l.Schs[0].V[0]
				for _, s := range l.Schs {
					if s.V[0] == maj {
						s.V[1]++
					}
				}
			}
		case 2:
			what = "repeated"
			l.Schs[i].V = l.Schs[i-1].V
			class = nil
		case 3:
			what = "descending"
			l.Schs[i-1], l.Schs[i] = l.Schs[i], l.Schs[i-1]
			class = nil
		case 4:
			what = "major-without-zero"
			s := &Sch{V: Ver{l.Schs[len(l.Schs)-1].V[0] + 1, uint(1 + c.Intn(3))}, T: l.Schs[len(l.Schs)-1].T.clone(), Ren: map[string]string{}}
			if evolve(c.Rand, lc, breakOps, s) == "" {
				return
			}
			l.Schs = append(l.Schs, s)
		}
		c.note("lineage (skip=%v):\n%s", len(opts) > 0, l.body())
		lin, err := bind(rt, l, opts...)
		c.distinct(l.body())
		c.rejected(what, lin, err, class)
		if what == "descending" && err != nil && len(opts) > 0 && !is(err, terrors.ErrInvalidSchemasOrder) && !is(err, errInvalidLineage) {
			c.fail("class:descending", "descending versions: error is neither ErrInvalidSchemasOrder nor ErrInvalidLineage: %s", oneLine(err))
		}
	case 6: // not lineages
		k := c.Intn(len(notLineages))
		nl := notLineages[k]
		c.note("source: %s", nl.src)
		v := rt.Context().CompileString(nl.src, cue.Filename("lin.cue"))
		if nl.path != "" {
			v = v.LookupPath(cue.ParsePath(nl.path))
		}
		lin, err := thema.BindLineage(v, rt)
		c.distinct(nl.name)
		c.rejected(nl.name, lin, err, nl.class)
	case 7: // a joinSchema that a schema does not fulfil
		l := genLin(c.Rand, linCfg{genCfg: lc.genCfg, min: 1, max: 3, pMajor: 0.5, join: true})
		l.Lenses = nil
		s := l.Schs[len(l.Schs)-1]
		s.T.field("joined").T = &Type{K: KInt, Num: "int64"}
		if s.V[1] != 0 {
			return
		}
		c.note("lineage:\n%s", l.body())
		lin, err := bind(rt, l)
		c.distinct(l.body())
		c.rejected("join-conflict", lin, err, errInvalidLineage)
	case 8: // an example that is not an instance
		l.Lenses = nil
		s := l.Schs[i]
		for tries := 0; tries < 30; tries++ {
			d, f, ok := s.T.corrupt(c.Rand, s.T.gen(c.Rand))
			// an example lacking a field is completed by the schema and non-concrete, not in conflict
			if !ok || f.Class == "missing" || f.Class == "length" {
				continue
			}
			if _, isMap := d.(map[string]any); !isMap {
				continue
			}
			s.Ex = map[string]any{"bad": d}
			c.note("lineage:\n%s", l.body())
			lin, err := bind(rt, l)
			c.distinct(l.body())
			c.rejected("bad-example", lin, err, errInvalidLineage)
			return
		}
	case 9: // known weak spots of CUE's subsumption, see known_findings.txt
		if c.Case != 9 {
			return
		}
		for _, k := range compatFindings {
			src := fmt.Sprintf("name: \"x\"\nschemas: [{version: [0, 0], schema: %s}, {version: [0, 1], schema: %s}]\nlenses: []\n", k.a, k.b)
			c.eval("finding-probe")
			if _, err := bindSrc(newRT(), src); err == nil {
				c.fail("finding:"+k.name, "breaking change accepted as minor: %s -> %s", k.a, k.b)
			}
		}
	}
}

var compatFindings = []struct{ name, a, b string }{
	{"list-elem-kind", "{a: [...string]}", "{a: [...int]}"},
	{"list-elem-field", "{a: [...{x: string}]}", "{a: [...{y: string}]}"},
	{"close-struct", "{a: string, ...}", "{a: string}"},
}

func shiftFrom(l *Lin, i int, maj, min uint) {
	cur := l.Schs[i].V[0]
	for _, s := range l.Schs[i:] {
		s.V[0] += maj
		if s.V[0] == cur+maj && min > 0 && s.V[0] == cur {
			s.V[1] += min
		}
	}
}

var notLineages = []struct {
	name, src, path string
	class           error
}{
	{"empty", `{}`, "", terrors.ErrValueNotALineage},
	{"no-name", `schemas: [{version: [0, 0], schema: {a: string}}]`, "", terrors.ErrValueNotALineage},
	{"no-schemas", `name: "x"`, "", terrors.ErrValueNotALineage},
	{"absent-path", `name: "x"`, "not.there", terrors.ErrValueNotExist},
	{"abstract-name", `name: string
schemas: [{version: [0, 0], schema: {a: string}}]`, "", errInvalidLineage},
	{"name-kind", `name: 3
schemas: [{version: [0, 0], schema: {a: string}}]`, "", errInvalidLineage},
	{"no-schema-at-all", `name: "x"
schemas: []`, "", errInvalidLineage},
	{"version-kind", `name: "x"
schemas: [{version: ["0", "0"], schema: {a: string}}]`, "", errInvalidLineage},
	{"version-negative", `name: "x"
schemas: [{version: [0, -1], schema: {a: string}}]`, "", errInvalidLineage},
	{"version-long", `name: "x"
schemas: [{version: [0, 0, 0], schema: {a: string}}]`, "", errInvalidLineage},
	{"schema-conflict", `name: "x"
schemas: [{version: [0, 0], schema: {a: string & int}}]`, "", errInvalidLineage},
	{"unknown-field", `name: "x"
zork: 3
schemas: [{version: [0, 0], schema: {a: string}}]`, "", errInvalidLineage},
	{"lens-kind", `name: "x"
schemas: [{version: [0, 0], schema: {a: string}}]
lenses: 3`, "", errInvalidLineage},
	{"scalar", `3`, "", nil},
	{"list", `[1, 2]`, "", nil},
	{"syntax", `name: `, "", nil},
	{"reference", `name: "x"
schemas: [{version: [0, 0], schema: {a: nope}}]`, "", nil},
}

func runP04(c *Ctx) {
	rt := newRT()
	l := markerLin(genCounts(c, 4, 4))
	for len(l.Schs) < 2 {
		l = markerLin(genCounts(c, 4, 4))
	}
	mk := func(from, to Ver) thema.ImperativeLens {
		return thema.ImperativeLens{From: sv(from), To: sv(to), Mapper: func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
			return to.Validate(decode(to.Lineage().Runtime(), markerData(mv(to.Version()))))
		}}
	}
	var exact []thema.ImperativeLens
	type pr struct{ a, b Ver }
	need := map[pr]bool{}
	add := func(a, b Ver) { exact = append(exact, mk(a, b)); need[pr{a, b}] = true }
	for i := 1; i < len(l.Schs); i++ {
		p, s := l.Schs[i-1].V, l.Schs[i].V
		add(s, p)
		if p[0] != s[0] {
			add(p, s)
		}
	}
	if c.Case%3 == 2 {
		runP04cue(c, rt, l)
		return
	}
	lenses := append([]thema.ImperativeLens(nil), exact...)
	fault := ""
	var class error
	if c.Case%3 == 1 {
		switch c.Intn(6) {
		case 0, 1:
			k := c.Intn(len(lenses))
			fault = fmt.Sprintf("missing %s->%s", lenses[k].From, lenses[k].To)
			lenses = append(lenses[:k:k], lenses[k+1:]...)
			class = terrors.ErrMissingLenses
			if len(lenses) == 0 {
				return // no Go lenses at all: CUE lenses are used
			}
		case 2:
			k := c.Intn(len(lenses))
			fault = fmt.Sprintf("duplicate %s->%s", lenses[k].From, lenses[k].To)
			lenses = append(lenses, lenses[k])
		case 3:
			k := c.Intn(len(lenses))
			fault = "nil mapper"
			lenses[k].Mapper = nil
		case 4, 5:
			// any pair that is not among those needed
			var a, b Ver
			for tries := 0; ; tries++ {
				a, b = pick(c.Rand, l.Schs).V, pick(c.Rand, l.Schs).V
				switch c.Intn(5) {
				case 0:
					b = Ver{a[0], a[1] + 1}
				case 1:
					a[0] += uint(c.Intn(3))
				case 2:
					b[1] += uint(c.Intn(3))
				}
				if !need[pr{a, b}] {
					break
				}
			}
			fault = "extra " + a.String() + "->" + b.String()
			switch {
			case l.sch(a) == nil || l.sch(b) == nil:
				c.count("extra:nonexistent")
			case a == b:
				c.count("extra:self")
			case a[0] == b[0] && a.less(b):
				c.count("extra:minor-forward")
			default:
				c.count("extra:skipping")
			}
			lenses = append(lenses, mk(a, b))
			class = terrors.ErrErroneousLenses
		}
	}
	c.Shuffle(len(lenses), func(i, j int) { lenses[i], lenses[j] = lenses[j], lenses[i] })
	var opts []thema.BindOption
	for len(lenses) > 0 {
		k := 1 + c.Intn(len(lenses))
		opts = append(opts, thema.ImperativeLenses(lenses[:k]...))
		lenses = lenses[k:]
	}
	c.note("versions %s, fault %q", l.shape(), fault)
	c.distinct(l.shape(), fault)
	lin, err := bindSrc(rt, l.bodyL(false), opts...)
	if fault == "" {
		c.eval("exact-set")
		if err != nil {
			c.fail("bind", "the exact set of Go lenses of %s is rejected: %s", l.shape(), err)
			return
		}
		c.sample("accept exact Go lens set of %s", l.shape())
		return
	}
	c.sample("reject %s of %s", fault, l.shape())
	c.eval("reject-go")
	if err == nil {
		c.fail("accepted-go", "Go lenses with fault %q are accepted for %s", fault, l.shape())
		return
	}
	if lin != nil {
		c.fail("half-go", "lineage returned along with an error")
	}
	if class != nil && !is(err, class) {
		c.fail("class-go", "fault %q: error is not %q: %s", fault, class, oneLine(err))
	}
}

func runP04cue(c *Ctx, rt *thema.Runtime, l *Lin) {
	if c.Case == 2 {
		for name, src := range cueLensFindings {
			c.eval("finding-probe")
			if _, err := bindSrc(newRT(), src); err == nil {
				c.fail("finding:"+name, "a lineage without the exact set of CUE lenses is accepted: %s", src)
			}
		}
	}
	// lenses in CUE, copying the marker
	l.Lenses = nil
	for i := 1; i < len(l.Schs); i++ {
		p, s := l.Schs[i-1], l.Schs[i]
		cp := func(a, b *Sch) *Lens {
			return &Lens{From: a.V, To: b.V, As: []*Assign{{Kind: "copy", Dst: b.T.Fields[0].Name, Src: a.T.Fields[0].Name}}}
		}
		l.Lenses = append(l.Lenses, cp(s, p))
		if s.V[0] != p.V[0] {
			l.Lenses = append(l.Lenses, cp(p, s))
		}
	}
	key := func(x *Lens) [4]uint { return [4]uint{x.To[0], x.To[1], x.From[0], x.From[1]} }
	less := func(a, b *Lens) bool {
		x, y := key(a), key(b)
		for i := range x {
			if x[i] != y[i] {
				return x[i] < y[i]
			}
		}
		return false
	}
	// insertion sort into canonical order
	for i := range l.Lenses {
		for j := i; j > 0 && less(l.Lenses[j], l.Lenses[j-1]); j-- {
			l.Lenses[j], l.Lenses[j-1] = l.Lenses[j-1], l.Lenses[j]
		}
	}
	perm := "canonical"
	if c.Intn(3) > 0 && len(l.Lenses) > 1 {
		switch c.Intn(3) {
		case 0:
			k := c.Intn(len(l.Lenses) - 1)
			l.Lenses[k], l.Lenses[k+1] = l.Lenses[k+1], l.Lenses[k]
			perm = fmt.Sprintf("swap%d", k)
		case 1:
			for i, j := 0, len(l.Lenses)-1; i < j; i, j = i+1, j-1 {
				l.Lenses[i], l.Lenses[j] = l.Lenses[j], l.Lenses[i]
			}
			perm = "reverse"
		case 2:
			k := c.Intn(len(l.Lenses))
			x := l.Lenses[k]
			l.Lenses = append(append([]*Lens{}, l.Lenses[k+1:]...), append([]*Lens{x}, l.Lenses[:k]...)...)
			perm = fmt.Sprintf("rotate%d", k)
		}
	}
	sorted := true
	for i := 1; i < len(l.Lenses); i++ {
		sorted = sorted && !less(l.Lenses[i], l.Lenses[i-1])
	}
	c.note("lineage:\n%s", l.body())
	c.distinct(l.shape(), perm)
	_, err := bind(rt, l)
	if sorted {
		c.eval("cue-order-ok")
		if err != nil {
			c.fail("bind", "lenses in canonical order are rejected: %s", err)
		}
		return
	}
	c.eval("cue-order-bad")
	if err == nil {
		c.fail("accepted-order", "lenses out of order (%s) are accepted", perm)
	} else if !is(err, terrors.ErrInvalidLensesOrder) {
		c.fail("class-order", "lenses out of order: error is not ErrInvalidLensesOrder: %s", oneLine(err))
	}
}

var cueLensFindings = map[string]string{
	"cue-lens-missing": `name: "x"
schemas: [{version: [0, 0], schema: {a: string}}, {version: [1, 0], schema: {b: string}}]
lenses: [{to: [0, 0], from: [1, 0], input: _, result: {a: input.b}}]
`,
	"cue-lens-erroneous": `name: "x"
schemas: [{version: [0, 0], schema: {a: string}}, {version: [0, 1], schema: {a: string, b?: string}}]
lenses: [{to: [0, 0], from: [0, 1], input: _, result: {a: input.a}}, {to: [0, 1], from: [0, 0], input: _, result: {a: input.a}}]
`,
}
