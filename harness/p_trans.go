package main

import (
	"fmt"
	"sync"

	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
)

func lacKey(v any, path string) string { return fmt.Sprintf("%s=%v", path, norm(v)) }

// gotLacs renders translation lacunas for comparison.
func gotLacs(t thema.TranslationLacunas) []string {
	out := []string{}
	if t == nil {
		return out
	}
	for _, l := range t.AsList() {
		s := fmt.Sprintf("type=%d msg=%s", l.Type, l.Message)
		for _, f := range l.SourceFields {
			s += " src:" + f.Path + "=" + jsonText(normGo(f.Value), nil)
		}
		for _, f := range l.TargetFields {
			s += " dst:" + f.Path + "=" + jsonText(normGo(f.Value), nil)
		}
		out = append(out, s)
	}
	return out
}

func normGo(v any) any {
	switch x := v.(type) {
	case int:
		return int64(x)
	case map[string]any, []any:
		return norm(x)
	}
	return v
}

func wantLacs(ls []lacOut) []string {
	out := []string{}
	for _, o := range ls {
		l := o.Lac
		s := fmt.Sprintf("type=%d msg=%s", l.TypeID, l.Msg)
		if l.SrcPath != "" {
			s += " src:" + l.SrcPath + "=" + jsonText(o.Src, nil)
		}
		if l.DstPath != "" {
			s += " dst:" + l.DstPath + "=" + jsonText(o.Dst, nil)
		}
		out = append(out, s)
	}
	return out
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "P08", Quick: 190, Thorough: 6000,
		Rule: "random lineages of 2-7 versions with the exact set of CUE lenses (copies, constants, string rewriting that shows the path taken, conditionals, wrapping, list comprehensions); instances of every version are translated to every version; the model composes the lenses step by step, filling schema-determined values; non-trivial: source and target differ; distinct by lineage, source, target and data",
		Run:  runP08})
	register(&Check{ID: "P09", Quick: 260, Thorough: 6000,
		Rule: "lineages in which one CUE lens is faulty (leaves a required field unset, wrong kind, out of bounds, excess field, reference to an absent field, missing), always or only for some input; translations through it must fail as ErrInvalidLens, all others succeed with the modelled result; distinct by fault, lineage, source, target",
		Run:  runP09})
	register(&Check{ID: "P10", Quick: 4000, Thorough: 15000,
		Rule: "lineages bound with recording Go lenses; every call's arguments and order, the outcome and, with lenses that fail, return nothing or an instance of another version, the error are compared with the model; distinct by shape, source, target, fault",
		Run:  runP10})
	register(&Check{ID: "P11", Quick: 170, Thorough: 5000,
		Rule: "lineages whose lenses carry several lacunas, unconditional or conditional on the input of their step; every translation's lacunas are compared with the model's, in order; non-trivial: lacunas expected; distinct by lineage, source, target and data",
		Run:  runP11})
	register(&Check{ID: "P12", Quick: 360, Thorough: 5000,
		Rule: "lineages with long runs of minor versions made by every compatible change; every instance must be valid, unchanged, for all later minors of its major, and translate to them keeping all of its data; lineages declaring a breaking change as minor, should they bind, are held to the same; distinct by lineage, version pair and data",
		Run:  runP12})
}

func runP08(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.lacunas = false
	lc.join = c.Intn(8) == 0
	if c.Intn(5) == 0 {
		lc.depth, lc.min, lc.max = 2, 5, 7
	}
	l := genLin(c.Rand, lc)
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	for _, s := range l.Schs {
		for k := 0; k < 2; k++ {
			d := s.T.gen(c.Rand)
			inst, err := thema.SchemaP(lin, sv(s.V)).Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %v", jsonText(d, nil), s.V, err)
				continue
			}
			for _, t := range l.Schs {
				if len(l.Schs) > 5 && k > 0 && c.Intn(2) == 0 {
					continue
				}
				c.checkTranslate(l, inst, d, s.V, t.V)
			}
			// the source instance is untouched
			if got, err := dataOf(inst); err != nil || !dataEq(got, d) {
				c.fail("source", "translating %s changed it to %s %v", jsonText(d, nil), jsonText(got, nil), err)
			}
		}
	}
}

// stepOrTranslate translates, to neighbouring versions sometimes by the methods for them.
// AsSuccessor fills in no defaults within a major.
func (c *Ctx) stepOrTranslate(l *Lin, inst *thema.Instance, from, to Ver, minors bool) (*thema.Instance, thema.TranslationLacunas, error) {
	if p := l.path(from, to); len(p) == 1 && c.Intn(2) == 0 {
		if to.less(from) {
			c.count("AsPredecessor")
			return inst.AsPredecessor()
		}
		if minors || to[0] != from[0] {
			c.count("AsSuccessor")
			return inst.AsSuccessor()
		}
	}
	return inst.Translate(sv(to))
}

// checkTranslate compares a translation with the model's.
func (c *Ctx) checkTranslate(l *Lin, inst *thema.Instance, d any, from, to Ver) {
	want, wl := l.translate(d, from, to)
	ti, lac, err := c.stepOrTranslate(l, inst, from, to, false)
	dir := "up"
	if to.less(from) {
		dir = "down"
	}
	if to == from {
		dir = "same"
	} else {
		c.distinct(l.body(), from, to, jsonText(d, nil))
		c.sample("versions %s: %s -> %s of %s: %s", l.shape(), from, to, jsonText(d, nil), jsonText(want, nil))
	}
	c.eval(fmt.Sprintf("translate-%s:steps=%d", dir, len(l.path(from, to))))
	if err != nil {
		c.fail("translate", "%s -> %s of %s: want %s, got error %v", from, to, jsonText(d, nil), jsonText(want, nil), err)
		return
	}
	c.checkInstance(l, ti, want, to, fmt.Sprintf("%s -> %s of %s", from, to, jsonText(d, nil)))
	if g, w := gotLacs(lac), wantLacs(wl); !eqStrs(g, w) {
		c.fail("lacunas", "%s -> %s of %s: lacunas: want %q, got %q", from, to, jsonText(d, nil), w, g)
	}
}

// checkInstance: the instance has the wanted data and version, and is valid.
func (c *Ctx) checkInstance(l *Lin, ti *thema.Instance, want any, to Ver, what string) {
	if ti == nil {
		c.fail("result", "%s: neither instance nor error", what)
		return
	}
	got, err := dataOf(ti)
	if err != nil || !dataEq(got, want) {
		c.fail("result", "%s: want %s, got %s %v", what, jsonText(want, nil), jsonText(got, nil), err)
	}
	if mv(ti.Schema().Version()) != to {
		c.fail("version", "%s: the result is labelled %s, want %s", what, ti.Schema().Version(), to)
	}
	if s := l.sch(to); s != nil && err == nil && !s.T.ambiguous(got) && !s.T.valid(got) {
		c.fail("invalid", "%s: the result %s is no instance of %s", what, jsonText(got, nil), to)
	}
}

// trail: the data entering every step of a translation, per the model.
func (l *Lin) trail(d any, from, to Ver) (steps [][2]Ver, in []map[string]any) {
	cv := from
	for _, s := range l.path(from, to) {
		cur, _ := l.translate(d, from, cv)
		steps = append(steps, [2]Ver{cv, s.V})
		in = append(in, cur.(map[string]any))
		cv = s.V
	}
	return
}

func runP09(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.max = 4
	lc.lacunas = c.Intn(3) == 0
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	for _, x := range l.Lenses {
		for _, m := range x.Lac {
			m.DstRef = false // the field may be left out below
		}
	}
	if len(l.Lenses) == 0 {
		return
	}
	xi := c.Intn(len(l.Lenses))
	x := l.Lenses[xi]
	from, to := l.sch(x.From), l.sch(x.To)
	// the lens as rendered differs from the model's, which keeps the good one
	y := *x
	fault := pick(c.Rand, []string{"incomplete", "kind", "bounds", "excess", "reference", "missing"})
	drop := func(name string) {
		y.As = nil
		for _, a := range x.As {
			if a.Dst != name {
				y.As = append(y.As, a)
			}
		}
	}
	var bad, dst string
	target := func(ok func(f *Field) bool) *Field { return pickField(c.Rand, to.T, ok) }
	switch fault {
	case "incomplete":
		f := target(func(f *Field) bool { return !f.Opt && !f.T.fillable() })
		if f == nil {
			return
		}
		drop(f.Name)
		dst = f.Name
	case "kind", "bounds":
		var v any
		f := target(func(f *Field) bool {
			var ok bool
			if fault == "kind" {
				v, ok = f.T.wrongKind(c.Rand)
			} else {
				v, ok = f.T.outOfBounds(c.Rand)
			}
			return ok && !f.T.valid(v)
		})
		if f == nil {
			return
		}
		// pickField may call the predicate for several fields
		for i := 0; i < 20; i++ {
			var ok bool
			if fault == "kind" {
				v, ok = f.T.wrongKind(c.Rand)
			} else {
				v, ok = f.T.outOfBounds(c.Rand)
			}
			if ok && !f.T.valid(v) {
				break
			}
		}
		if f.T.valid(v) {
			return
		}
		drop(f.Name)
		dst = f.Name
		bad = fmt.Sprintf("%s: %s", cueLabel(f.Name), cueLit(v))
	case "excess":
		bad = "zzExcess: 1"
	case "reference":
		f := target(func(f *Field) bool { return !f.Opt && !f.T.fillable() })
		if f == nil {
			return
		}
		drop(f.Name)
		dst = f.Name
		bad = fmt.Sprintf("%s: input.zzNone", cueLabel(f.Name))
	}
	// possibly only for some inputs
	var cond *Field
	var cv any
	if fault != "missing" && c.Intn(2) == 0 {
		cond = pickField(c.Rand, from.T, func(f *Field) bool {
			return !f.Opt && !f.T.fillable() && !f.T.Null && (f.T.K == KBool || f.T.K == KEnum || f.T.K == KString || f.T.K == KInt)
		})
	}
	if cond != nil {
		cv = nonNil(c.Rand, cond.T)
		in := "input" + cueSel(cond.Name)
		raw := fmt.Sprintf("if %s == %s {\n%s\n}\n", in, cueLit(cv), bad)
		if dst != "" {
			good := ""
			for _, a := range x.As {
				if a.Dst == dst {
					good += a.cue() + "\n"
				}
			}
			raw += fmt.Sprintf("if %s != %s {\n%s\n}\n", in, cueLit(cv), good)
		}
		bad = raw
	}
	y.Raw = bad
	r := *l
	r.Lenses = append([]*Lens(nil), l.Lenses...)
	if fault == "missing" {
		r.Lenses = append(r.Lenses[:xi:xi], r.Lenses[xi+1:]...)
	} else {
		r.Lenses[xi] = &y
	}
	c.note("fault %s in lens %s -> %s (conditional: %v)", fault, x.From, x.To, cond != nil)
	lin := c.mustBind(rt, &r)
	if lin == nil {
		return
	}
	for _, s := range l.Schs {
		for k := 0; k < 2; k++ {
			d := s.T.gen(c.Rand)
			inst, err := thema.SchemaP(lin, sv(s.V)).Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %v", jsonText(d, nil), s.V, err)
				continue
			}
			for _, t := range l.Schs {
				hit, last := false, false
				steps, in := l.trail(d, s.V, t.V)
				for i, st := range steps {
					if st[0] == x.From && st[1] == x.To && (cond == nil || dataEq(in[i][cond.Name], cv)) {
						hit, last = true, i == len(steps)-1
					}
				}
				c.distinct(fault, cond != nil, l.body(), s.V, t.V)
				if !hit {
					c.count("sound")
					if fault == "missing" {
						// lenses are found by position: others may be out of reach,
						// which must show, too
						if _, _, err := inst.Translate(sv(t.V)); err != nil {
							c.eval("faulty:missing-elsewhere")
							if !is(err, errInvalidLens) {
								c.fail("class", "lens missing: error is not ErrInvalidLens: %s", oneLine(err))
							}
							continue
						}
					}
					c.checkTranslate(l, inst, d, s.V, t.V)
					continue
				}
				ti, lac, err := inst.Translate(sv(t.V))
				c.eval(fmt.Sprintf("faulty:%s:cond=%v", fault, cond != nil))
				c.sample("%s lens %s -> %s; translate %s -> %s of %s: %s", fault, x.From, x.To, s.V, t.V, jsonText(d, nil), oneLine(err))
				if err == nil && !last && fault != "missing" {
					// only the final result is checked against its schema: a later
					// lens may make an instance of it nonetheless
					c.count("faulty-intermediate-masked")
					got, gerr := dataOf(ti)
					if gerr != nil || mv(ti.Schema().Version()) != t.V || !t.T.ambiguous(got) && !t.T.valid(got) {
						c.fail("invalid:"+fault, "lens %s -> %s is faulty (%s), %s -> %s of %s yields %s %v, no instance of %s", x.From, x.To, fault, s.V, t.V, jsonText(d, nil), jsonText(got, nil), gerr, t.V)
					}
					continue
				}
				if err == nil {
					got, _ := dataOf(ti)
					c.fail("silent:"+fault, "lens %s -> %s is faulty (%s), but %s -> %s of %s yields %s", x.From, x.To, fault, s.V, t.V, jsonText(d, nil), jsonText(got, nil))
					continue
				}
				if ti != nil || lac != nil {
					c.fail("half", "a result is returned along with the error %s", oneLine(err))
				}
				if !is(err, errInvalidLens) {
					c.fail("class", "faulty lens (%s): error is not ErrInvalidLens: %s", fault, oneLine(err))
				}
			}
		}
	}
}

type lensCall struct {
	from, to, inst, target Ver
	data                   string
}

var errLensSentinel = errors.New("lens says no")

func runP10(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.lacunas, lc.anyMinor = false, true
	lc.max = 6
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	if len(l.Schs) < 2 {
		return
	}
	var mu sync.Mutex
	var calls []lensCall
	fault := pick(c.Rand, []string{"none", "none", "error", "nil", "wrong-version", "error-once"})
	fi := c.Intn(len(l.Lenses))
	var lin thema.Lineage
	var lenses []thema.ImperativeLens
	armed := true
	for i, x := range l.Lenses {
		i, x := i, x
		lenses = append(lenses, thema.ImperativeLens{From: sv(x.From), To: sv(x.To), Mapper: func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
			mu.Lock()
			defer mu.Unlock()
			data, err := dataOf(inst)
			if err != nil {
				return nil, err
			}
			calls = append(calls, lensCall{x.From, x.To, mv(inst.Schema().Version()), mv(to.Version()), jsonText(data, nil)})
			if i == fi && armed {
				switch fault {
				case "error":
					return nil, errLensSentinel
				case "error-once":
					armed = false
					return nil, errLensSentinel
				case "nil":
					return nil, nil
				case "wrong-version":
					return inst, nil
				}
			}
			out := map[string]any{}
			for _, a := range x.As {
				a.apply(data.(map[string]any), out)
			}
			return to.Validate(decode(rt, out))
		}})
	}
	c.Shuffle(len(lenses), func(i, j int) { lenses[i], lenses[j] = lenses[j], lenses[i] })
	var opts []thema.BindOption
	k := c.Intn(len(lenses) + 1)
	opts = append(opts, thema.ImperativeLenses(lenses[:k]...), thema.ImperativeLenses(lenses[k:]...))
	body := l.bodyL(false)
	c.note("lineage:\n%s\nfault %s in %s -> %s", body, fault, l.Lenses[fi].From, l.Lenses[fi].To)
	lin, err := thema.BindLineage(rt.Context().CompileString(body, cue.Filename("lin.cue")), rt, opts...)
	if err != nil {
		c.fail("bind", "valid lineage with the exact set of Go lenses is rejected: %s", oneLine(err))
		return
	}
	for _, s := range l.Schs {
		for k := 0; k < 2; k++ {
			d := s.T.gen(c.Rand)
			inst, err := thema.SchemaP(lin, sv(s.V)).Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %v", jsonText(d, nil), s.V, err)
				continue
			}
			for _, t := range l.Schs {
				// the model
				var want []lensCall
				cur := cloneData(d).(map[string]any)
				cv := s.V
				failed := false
				wasArmed := armed
				for _, n := range l.path(s.V, t.V) {
					if cv[0] == n.V[0] && cv.less(n.V) {
						cv = n.V
						continue
					}
					x := l.lens(cv, n.V)
					want = append(want, lensCall{cv, n.V, cv, n.V, jsonText(cur, nil)})
					if x == l.Lenses[fi] && fault != "none" && wasArmed {
						failed = true
						break
					}
					next := map[string]any{}
					for _, a := range x.As {
						a.apply(cur, next)
					}
					cur, cv = next, n.V
				}
				calls = nil
				ti, lac, err := c.stepOrTranslate(l, inst, s.V, t.V, true)
				c.eval(fmt.Sprintf("translate:fails=%v", failed))
				for range want {
					c.count("lens-calls")
				}
				c.distinct(l.body(), s.V, t.V, fault)
				c.sample("versions %s: %s -> %s of %s calls %v, fails %v", l.shape(), s.V, t.V, jsonText(d, nil), want, failed)
				what := fmt.Sprintf("%s -> %s of %s", s.V, t.V, jsonText(d, nil))
				if fmt.Sprint(calls) != fmt.Sprint(want) {
					c.fail("calls", "%s: lens calls (from, to, instance, target, data)\n got %v\nwant %v", what, calls, want)
				}
				if lac != nil && len(lac.AsList()) > 0 {
					c.fail("lacunas", "%s: lacunas from Go lenses: %v", what, gotLacs(lac))
				}
				if !failed {
					if err != nil {
						c.fail("translate", "%s: %s", what, oneLine(err))
						continue
					}
					c.checkInstance(l, ti, cur, t.V, what)
					continue
				}
				if err == nil || ti != nil {
					c.fail("silent:"+fault, "%s: the lens fails (%s), but the translation does not", what, fault)
					continue
				}
				if !is(err, errInvalidLens) {
					c.fail("class", "%s: error is not ErrInvalidLens: %s", what, oneLine(err))
				}
				if (fault == "error" || fault == "error-once") && !is(err, errLensSentinel) {
					c.fail("cause", "%s: the error of the lens is not in the chain: %s", what, oneLine(err))
				}
			}
			if got, err := dataOf(inst); err != nil || !dataEq(got, d) {
				c.fail("source", "translating %s changed it to %s %v", jsonText(d, nil), jsonText(got, nil), err)
			}
			if mv(inst.Schema().Version()) != s.V {
				c.fail("source", "translating an instance of %s relabelled it %s", s.V, inst.Schema().Version())
			}
		}
	}
}

func runP11(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.lacunas = true
	lc.depth = 1 + c.Intn(2)
	lc.pMajor = 0.7
	lc.min, lc.max = 3, 5
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	for _, x := range l.Lenses {
		for len(x.Lac) < 3 && c.Intn(3) > 0 {
			x.Lac = append(x.Lac, genLac(c.Rand, l.sch(x.From), l.sch(x.To), x))
		}
	}
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	for _, s := range l.Schs {
		for k := 0; k < 2; k++ {
			d := s.T.gen(c.Rand)
			inst, err := thema.SchemaP(lin, sv(s.V)).Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %v", jsonText(d, nil), s.V, err)
				continue
			}
			for _, t := range l.Schs {
				_, wl := l.translate(d, s.V, t.V)
				_, lac, err := inst.Translate(sv(t.V))
				c.eval(fmt.Sprintf("translate:lacunas=%d", min(len(wl), 6)))
				if err != nil {
					c.fail("translate", "%s -> %s of %s: %v", s.V, t.V, jsonText(d, nil), err)
					continue
				}
				w := wantLacs(wl)
				if len(w) > 0 {
					c.distinct(l.body(), s.V, t.V, jsonText(d, nil))
					c.sample("versions %s: %s -> %s of %s: %q", l.shape(), s.V, t.V, jsonText(d, nil), w)
				}
				if g := gotLacs(lac); !eqStrs(g, w) {
					c.fail("lacunas", "%s -> %s of %s: lacunas: want %q, got %q", s.V, t.V, jsonText(d, nil), w, g)
				}
			}
		}
	}
}

func runP12(c *Ctx) {
	if c.Case == 0 {
		probeP12(c)
		return
	}
	rt := newRT()
	lc := stdLin()
	lc.any, lc.openness, lc.anyMinor = true, true, true
	lc.pMajor = 0.15
	lc.min, lc.max = 3, 7
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	if c.Case%3 == 1 {
		c.brokenMinor(rt, l, lc)
		return
	}
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	budget := 24
	for i, s := range l.Schs {
		for k := 0; k < 4; k++ {
			d := s.T.gen(c.Rand)
			inst, err := lin.All()[i].Validate(decode(rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %v", jsonText(d, nil), s.V, err)
				continue
			}
			for j := i; j < len(l.Schs) && l.Schs[j].V[0] == s.V[0]; j++ {
				t := l.Schs[j]
				if j > i {
					c.distinct(l.body(), s.V, t.V, jsonText(d, nil))
					c.sample("%s -> %s (%v): %s", s.V, t.V, t.Op, jsonText(d, nil))
				}
				what := fmt.Sprintf("instance %s of %s in %s (%v)", jsonText(d, nil), s.V, t.V, t.Op)
				_, err := lin.All()[j].Validate(decode(rt, d))
				c.eval("still-valid")
				if err != nil {
					c.fail("incompatible", "%s: no longer valid: %s", what, oneLine(err))
					continue
				}
				want, _ := l.translate(d, s.V, t.V)
				if j == i+1 {
					ni, lac, err := inst.AsSuccessor()
					c.eval("as-successor")
					if err != nil || lac != nil && len(lac.AsList()) > 0 {
						c.fail("successor", "%s: AsSuccessor: %v %v", what, err, lac)
					} else {
						got, err := dataOf(ni)
						if err != nil || !(dataEq(got, d) || dataEq(got, want)) {
							c.fail("successor", "%s: AsSuccessor yields %s %v", what, jsonText(got, nil), err)
						}
						if mv(ni.Schema().Version()) != t.V {
							c.fail("successor", "%s: AsSuccessor yields version %s", what, ni.Schema().Version())
						}
					}
				}
				if budget--; budget < 0 {
					continue
				}
				ti, lac, err := inst.Translate(sv(t.V))
				c.eval("translate")
				if err != nil {
					c.fail("translate", "%s: %s", what, oneLine(err))
					continue
				}
				if len(gotLacs(lac)) > 0 {
					c.fail("lacunas", "%s: minor upgrade has lacunas %v", what, gotLacs(lac))
				}
				got, err := dataOf(ti)
				if err != nil || !dataEq(got, want) {
					c.fail("data", "%s: translated to %s %v, want %s", what, jsonText(got, nil), err, jsonText(want, nil))
				}
				if mv(ti.Schema().Version()) != t.V {
					c.fail("version", "%s: labelled %s", what, ti.Schema().Version())
				}
			}
		}
	}
}

// brokenMinor declares a breaking change as a minor version. If that binds,
// every instance of an earlier version of the major must be one of the new version.
func (c *Ctx) brokenMinor(rt *thema.Runtime, l *Lin, lc linCfg) {
	i := 1 + c.Intn(len(l.Schs))
	prev := l.Schs[i-1]
	s := &Sch{V: Ver{prev.V[0], prev.V[1] + 1}, T: prev.T.clone(), Ren: map[string]string{}}
	op := evolve(c.Rand, lc, breakOps, s)
	if op == "" {
		return
	}
	l.Schs = append(l.Schs[:i:i], s)
	l.Lenses = nil
	c.note("lineage:\n%s", l.body())
	lin, err := bind(rt, l)
	c.eval("broken-minor")
	c.distinct(l.body())
	c.sample("%s declared as %s: refused %v", op, s.V, err != nil)
	if err != nil {
		c.count("broken-minor:refused:" + op)
		return
	}
	c.count("broken-minor:bound")
	for j := 0; j < i; j++ {
		if l.Schs[j].V[0] != s.V[0] {
			continue
		}
		for k := 0; k < 12; k++ {
			d := l.Schs[j].T.gen(c.Rand)
			if _, err := lin.All()[j].Validate(decode(rt, d)); err != nil {
				continue
			}
			c.eval("broken-minor:instance")
			if _, err := lin.All()[i].Validate(decode(rt, d)); err != nil {
				c.fail("incompatible", "instance %s of %s is not one of %s (%s), although the lineage binds: %s", jsonText(d, nil), l.Schs[j].V, s.V, op, oneLine(err))
				return
			}
		}
	}
}

// probeP12 exercises changes known to be accepted as minor although instances
// get lost.
func probeP12(c *Ctx) {
	for _, p := range []struct{ key, a, b, d string }{
		{"drop-default", `{a: string | *"x", b?: string}`, `{a: string, b?: string}`, `{}`},
		{"const-to-string", `{a: "lit", b?: string}`, `{a: string, b?: string}`, `{}`},
	} {
		rt := newRT()
		lin, err := bindSrc(rt, fmt.Sprintf("name: \"p\"\nschemas: [{version: [0, 0], schema: %s}, {version: [0, 1], schema: %s}]\nlenses: [{to: [0, 0], from: [0, 1], input: _, result: {}, lacunas: []}]", p.a, p.b))
		c.eval("probe")
		if err != nil {
			continue // now rejected
		}
		v := rt.Context().CompileString(p.d)
		if _, err := lin.First().Validate(v); err != nil {
			c.fail("validate", "%s is rejected by %s", p.d, p.a)
		}
		if _, err := lin.Latest().Validate(v); err != nil {
			c.fail("finding:"+p.key, "%s -> %s is accepted as minor, but %s is no longer valid: %s", p.a, p.b, p.d, oneLine(err))
		}
	}
}
