package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/vmux"
)

func init() {
	register(&Check{ID: "P25", Quick: 128, Thorough: 1500, Procs: 4, Race: true,
		Rule: "race-detector build; 4-8 goroutines released together, with random pauses, run random operations (bind, validate, translate, hydrate, the four muxers, typed values, generators, comparisons, navigation) on runtimes of their own or on one shared runtime, lineage, schema, muxer and instance; every result is compared with the sequential model, and any data race, deadlock or panic is a violation; the monitor records starts and ends of operations and counts which kinds overlapped; distinct by interleaving of starts and ends",
		Run:  runP25})
}

// world is what the operations of one case work on.
type world struct {
	l     *Lin
	rt    *thema.Runtime
	lin   thema.Lineage
	typed bool
	// shared muxers, one per version
	uj    []vmux.UntypedMux
	bj    []vmux.ByteMux
	tm    vmux.TypedMux[*T11]
	vm    vmux.ValueMux[*T11]
	ts    thema.TypedSchema[*T11]
	insts []*thema.Instance // one shared per version
	data  []any
}

func (c *Ctx) newWorld(l *Lin, typed bool) *world {
	w := &world{l: l, rt: newRT(), typed: typed}
	var err error
	w.lin, err = bind(w.rt, l)
	if err != nil {
		c.fail("bind", "valid lineage is rejected: %s", oneLine(err))
		return nil
	}
	for _, s := range w.lin.All() {
		w.uj = append(w.uj, vmux.NewUntypedMux(s, jsonC))
		w.bj = append(w.bj, vmux.NewByteMux(s, jsonC))
	}
	if typed {
		w.ts, err = thema.BindType(w.lin.All()[3], &T11{})
		if err != nil {
			c.fail("bindtype", "%s", oneLine(err))
			return nil
		}
		w.tm = vmux.NewTypedMux(w.ts, jsonC)
		w.vm = vmux.NewValueMux(w.ts, jsonC)
	}
	return w
}

type opEvent struct {
	g    int
	op   string
	end  bool
	tick int64
}

type opLog struct {
	tick int64
	mu   sync.Mutex
	ev   []opEvent
}

func (o *opLog) add(g int, op string, end bool) {
	// The tick orders events; it is an atomic of its own so that the monitor
	// adds as little ordering as it can.
	t := atomic.AddInt64(&o.tick, 1)
	o.mu.Lock()
	o.ev = append(o.ev, opEvent{g, op, end, t})
	o.mu.Unlock()
}

// sharedOps may be used on one runtime by many goroutines; ownOps, all of
// them, on runtimes of their own. (Reading the CUE value of an instance, as
// encoders do, is CUE's business and not synchronized with other goroutines.)
var sharedOps = []string{"validate", "validate-any", "invalid", "translate", "translate-shared", "navigate", "bind", "bind-type", "append-only", "hydrate", "dehydrate", "value-mux", "new-t", "assignable"}
var ownOps = append([]string{"mux-untyped", "mux-byte", "typed-mux", "openapi", "jsonschema", "gocode", "gocode"}, sharedOps...)

// perform runs one operation and compares its result with the model.
// What has to read CUE values is left to later.
func (c *Ctx) perform(r *rand.Rand, w *world, op string, later func(func())) {
	i := r.Intn(len(w.l.Schs))
	s := w.l.Schs[i]
	d := s.T.gen(r)
	for k := 0; k < 5 && w.l.anyAmbiguous(d); k++ {
		d = s.T.gen(r)
	}
	sch := w.lin.All()[i]
	switch op {
	case "validate", "hydrate", "dehydrate", "translate":
		inst, err := sch.Validate(decode(w.rt, d))
		if err != nil {
			c.fail("validate", "valid data %s rejected by %s: %s", jsonText(d, nil), s.V, oneLine(err))
			return
		}
		switch op {
		case "validate":
			later(func() {
				if got, err := dataOf(inst); err != nil || !dataEq(got, d) {
					c.fail("validate-data", "the instance of %s is %s, %v", jsonText(d, nil), jsonText(got, nil), err)
				}
			})
		case "hydrate":
			h := inst.Hydrate()
			later(func() {
				if got, err := dataOf(h); err != nil || !dataEq(got, s.T.hydrate(d)) {
					c.fail("hydrate", "hydrated %s is %s, %v; want %s", jsonText(d, nil), jsonText(got, nil), err, jsonText(s.T.hydrate(d), nil))
				}
			})
		case "dehydrate":
			h := inst.Dehydrate()
			later(func() {
				if got, err := dataOf(h); err != nil || !dataEq(s.T.hydrate(got), s.T.hydrate(d)) {
					c.fail("dehydrate", "dehydrated %s is %s, %v", jsonText(d, nil), jsonText(got, nil), err)
				}
			})
		case "translate":
			c.translateLater(w, inst, d, s.V, w.l.Schs[r.Intn(len(w.l.Schs))].V, later)
		}
	case "invalid":
		bad, site, ok := s.T.corrupt(r, d)
		if !ok || w.l.anyAmbiguous(bad) {
			return
		}
		_ = site
		if s.T.valid(bad) {
			return
		}
		if _, err := sch.Validate(decode(w.rt, bad)); err == nil || !is(err, errInvalidData) {
			c.fail("invalid", "invalid data %s for %s gives %s", jsonText(bad, nil), s.V, oneLine(err))
		}
	case "validate-any":
		inst := w.lin.ValidateAny(decode(w.rt, d))
		want := 0
		for !w.l.Schs[want].T.valid(d) {
			want++
		}
		if inst == nil || mv(inst.Schema().Version()) != w.l.Schs[want].V {
			c.fail("validate-any", "ValidateAny of %s gives %v, want %s", jsonText(d, nil), inst, w.l.Schs[want].V)
		}
	case "translate-shared":
		if len(w.insts) == 0 {
			return
		}
		c.translateLater(w, w.insts[i], w.data[i], s.V, w.l.Schs[r.Intn(len(w.l.Schs))].V, later)
	case "mux-untyped", "mux-byte", "typed-mux", "value-mux":
		if w.l.anyAmbiguous(d) {
			return
		}
		in := muxInput{data: d, json: jsonText(d, r)}
		t := r.Intn(len(w.l.Schs))
		switch op {
		case "mux-untyped":
			inst, lac, err := w.uj[t]([]byte(in.json))
			c.checkMux(w.l, in, t, untypedRes("untyped", inst, lac, err), nil)
		case "mux-byte":
			b, lac, err := w.bj[t]([]byte(in.json))
			c.checkMux(w.l, in, t, bytesRes(c, "byte", b, lac, err, false), nil)
		case "typed-mux":
			if !w.typed {
				return
			}
			ti, lac, err := w.tm([]byte(in.json))
			res := muxRes{name: "typed", lac: lac, err: err}
			if err == nil {
				res = untypedRes("typed", ti.Instance, lac, err)
			}
			c.checkMux(w.l, in, 3, res, nil)
		case "value-mux":
			if !w.typed {
				return
			}
			v, lac, err := w.vm([]byte(in.json))
			res := muxRes{name: "value", lac: lac, err: err}
			if err == nil {
				res.data = goJSON(v)
			}
			c.checkMux(w.l, in, 3, res, func(d any) any { return goJSON(viaGo(w.l.Schs[3].V, w.l.Schs[3].T.hydrate(d))) })
		}
	case "new-t":
		if !w.typed {
			return
		}
		t := w.ts.NewT()
		t.fill(r)
		if n := w.ts.NewT(); n == t {
			c.fail("new-t", "NewT returned the same pointer twice")
		}
	case "bind-type":
		if !w.typed {
			return
		}
		ts, err := thema.BindType(w.lin.All()[3], &T11{})
		if err != nil || ts.NewT() == nil {
			c.fail("bind-type", "%s", oneLine(err))
		}
	case "assignable":
		if !w.typed {
			return
		}
		if err := thema.AssignableTo(w.lin.All()[3], &T11{}); err != nil {
			c.fail("assignable", "%s", oneLine(err))
		}
	case "navigate":
		for k, sc := range w.lin.All() {
			if mv(sc.Version()) != w.l.Schs[k].V || sc.Lineage().Name() != w.l.Name {
				c.fail("navigate", "schema %d is %s of %s", k, sc.Version(), sc.Lineage().Name())
			}
			if p := sc.Predecessor(); (p == nil) != (k == 0) {
				c.fail("navigate", "predecessor of %s", sc.Version())
			}
		}
		if mv(w.lin.Latest().Version()) != w.l.Schs[len(w.l.Schs)-1].V {
			c.fail("navigate", "latest is %s", w.lin.Latest().Version())
		}
	case "bind":
		lin, err := bind(w.rt, w.l)
		if err != nil || len(lin.All()) != len(w.l.Schs) {
			c.fail("bind", "binding the valid lineage again: %s", oneLine(err))
		}
	case "openapi":
		_, _ = openapi.GenerateSchema(sch, nil) // not every schema can be expressed
	case "jsonschema":
		_, _ = jsonschema.GenerateSchema(sch) // not every schema can be expressed
	case "gocode":
		// not every schema can be expressed, but the answer is always the same
		got, err := gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{PackageName: w.l.Name})
		c.genMu.Lock()
		c.gens = append(c.gens, func() {
			want, werr := gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{PackageName: w.l.Name})
			if (err == nil) != (werr == nil) || err == nil && string(got) != string(want) {
				c.fail("gocode", "Go types for %s of\n%s generated at the same time as others:\n%s\n%v\nand alone:\n%s\n%v", sch.Version(), w.l.body(), got, err, want, werr)
			}
			c.count("gocode-compared")
		})
		c.genMu.Unlock()
	case "append-only":
		if err := thema.IsAppendOnly(w.lin, w.lin); err != nil {
			c.fail("append-only", "%s", oneLine(err))
		}
	}
}

func (c *Ctx) translateLater(w *world, inst *thema.Instance, d any, from, to Ver, later func(func())) {
	ti, lac, err := inst.Translate(sv(to))
	want, wl := w.l.translate(d, from, to)
	if err != nil {
		c.fail("translate", "%s -> %s of %s: want %s, got error %s", from, to, jsonText(d, nil), jsonText(want, nil), oneLine(err))
		return
	}
	if g, x := gotLacs(lac), wantLacs(wl); !eqStrs(g, x) {
		c.fail("lacunas", "%s -> %s of %s: lacunas: want %q, got %q", from, to, jsonText(d, nil), x, g)
	}
	later(func() { c.checkInstance(w.l, ti, want, to, fmt.Sprintf("%s -> %s of %s", from, to, jsonText(d, nil))) })
}

func (l *Lin) anyAmbiguous(d any) bool {
	for _, s := range l.Schs {
		if s.T.ambiguous(d) {
			return true
		}
	}
	return false
}

func (t *T11) fill(r *rand.Rand) { t.Title = fmt.Sprint(r.Intn(100)) }

func runP25(c *Ctx) {
	typed := c.Case%3 == 0
	mode := []string{"own", "shared", "shared-warm"}[c.Intn(3)]
	gen := func(r *rand.Rand) *Lin {
		if typed {
			return typedLin(&Ctx{Rand: r, rec: newRecord()})
		}
		lc := stdLin()
		lc.max = 4
		return genLin(r, lc)
	}
	l := gen(c.Rand)
	c.note("%s lineage (%s):\n%s", mode, l.shape(), l.body())
	now := func(f func()) { f() }
	var shared *world
	if mode != "own" {
		shared = c.newWorld(l, typed)
		if shared == nil {
			return
		}
		for i, s := range l.Schs {
			d := s.T.gen(c.Rand)
			inst, err := shared.lin.All()[i].Validate(decode(shared.rt, d))
			if err != nil {
				c.fail("validate", "valid data %s rejected by %s: %s", jsonText(d, nil), s.V, oneLine(err))
				return
			}
			shared.insts, shared.data = append(shared.insts, inst), append(shared.data, d)
		}
		if mode == "shared-warm" {
			for _, op := range sharedOps {
				c.perform(c.Rand, shared, op, now)
			}
		}
	}
	ng := 4 + c.Intn(5)
	c.genMu, c.gens = &sync.Mutex{}, nil
	log := &opLog{}
	gate := make(chan struct{})
	var wg sync.WaitGroup
	ops := sharedOps
	if mode == "own" {
		ops = ownOps
	}
	// Some cases concentrate on two kinds of operation.
	if c.Intn(2) == 0 {
		ops = []string{pick(c.Rand, ops), pick(c.Rand, ops)}
	}
	if mode == "own" && c.Case%4 == 1 {
		ops = []string{"gocode"}
	}
	var todo []func()
	var todoMu sync.Mutex
	later := func(f func()) {
		todoMu.Lock()
		todo = append(todo, f)
		todoMu.Unlock()
	}
	if mode == "own" {
		later = now
	}
	for g := 0; g < ng; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Int63()))
		go func(g int, r *rand.Rand) {
			defer wg.Done()
			op := "start"
			defer func() {
				if p := recover(); p != nil {
					b := make([]byte, 8000)
					b = b[:runtime.Stack(b, false)]
					c.fail("panic:"+op, "%s panics in goroutine %d: %v\n%s", op, g, p, b)
				}
			}()
			<-gate
			w := shared
			if w == nil {
				op = "new-world"
				log.add(g, op, false)
				w = c.newWorld(gen(r), typed)
				log.add(g, op, true)
				if w == nil {
					return
				}
			}
			for k := 0; k < 5; k++ {
				op = ops[r.Intn(len(ops))]
				switch r.Intn(4) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
				log.add(g, op, false)
				c.perform(r, w, op, later)
				log.add(g, op, true)
				c.eval(mode + ":" + op)
			}
		}(g, r)
	}
	close(gate)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		b := make([]byte, 1<<16)
		b = b[:runtime.Stack(b, true)]
		c.fail("stuck", "operations still running after 150 s\n%s", trunc(string(b), 3500))
		return
	}
	for _, f := range todo {
		f()
		c.eval(mode + ":read-afterwards")
	}
	for _, f := range c.gens {
		f()
	}
	// What overlapped, and the interleaving seen.
	active := map[int]string{}
	h := fnv.New64a()
	pairs := map[string]bool{}
	for _, e := range log.ev {
		fmt.Fprint(h, e.g, e.op, e.end, ";")
		if e.end {
			delete(active, e.g)
			continue
		}
		for _, o := range active {
			a, b := o, e.op
			if b < a {
				a, b = b, a
			}
			pairs[a+"|"+b] = true
			c.count(mode + "-overlaps")
		}
		active[e.g] = e.op
	}
	for p := range pairs {
		c.count("overlap:" + mode + "|" + p)
	}
	c.distinct(h.Sum64(), l.body())
}
