package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/format"
	"github.com/grafana/thema"
	tcue "github.com/grafana/thema/encoding/cue"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/encoding/typescript"
	"github.com/grafana/thema/vmux"
)

func init() {
	register(&Check{ID: "P28", Quick: 300, Thorough: 3000,
		Rule: "long random histories of all operations, valid and failing, on one runtime with two or three lineages, instances, muxers and configurations that live on, with everything handed out overwritten by the caller; each operation's result is compared with that of the same operation performed alone on a fresh runtime (in every fourth case in a new process); distinct by lineage, operation and position in the history",
		Run:  runP28})
}

// opSpec is an operation, independent of the objects it will be performed on.
type opSpec struct {
	kind       string
	lin, sch   int
	to, config int
	data       any
}

func (o opSpec) String() string {
	return fmt.Sprintf("%s(lineage %d, schema %d, to %d, config %d, data %s)", o.kind, o.lin, o.sch, o.to, o.config, trunc(jsonText(o.data, nil), 200))
}

// pureEnv is what operations work on.
type pureEnv struct {
	ls    []*Lin
	rt    *thema.Runtime
	raw   []cue.Value
	lins  []thema.Lineage
	insts map[string]*thema.Instance
	muxU  map[string]vmux.UntypedMux
	muxB  map[string]vmux.ByteMux
	oapi  []*openapi.Config
	gocf  []*gocode.TypeConfigOpenAPI
	tsc   []*typescript.TypeConfig
	bcf   []*gocode.BindingConfig
	spoil bool // overwrite what was handed out
}

func newPureEnv(ls []*Lin) (*pureEnv, error) {
	e := &pureEnv{ls: ls, rt: newRT(), insts: map[string]*thema.Instance{}, muxU: map[string]vmux.UntypedMux{}, muxB: map[string]vmux.ByteMux{}}
	for _, l := range ls {
		v := e.rt.Context().CompileString(l.body(), cue.Filename("lin.cue"))
		e.raw = append(e.raw, v)
		lin, err := thema.BindLineage(v, e.rt)
		if err != nil {
			return nil, err
		}
		e.lins = append(e.lins, lin)
	}
	e.oapi = []*openapi.Config{nil, {}, {Group: true}, {RootName: "Chosen"}}
	e.gocf = []*gocode.TypeConfigOpenAPI{nil, {}, {NoOptionalPointers: true}, {PackageName: "chosen", Config: &openapi.Config{}}}
	e.tsc = []*typescript.TypeConfig{nil, {}, {Group: true}, {RootName: "Chosen"}}
	e.bcf = []*gocode.BindingConfig{nil, {}, {FactoryNameSuffix: true, EmbedPath: "x.cue"}, {PrivateFactory: true, LoadDir: "a", CueModName: "b.c/d"}}
	return e, nil
}

func errClass(err error) string {
	s := "error"
	for n, e := range map[string]error{"data": errInvalidData, "lineage": errInvalidLineage, "lens": errInvalidLens, "version": errVersionNotExist} {
		if is(err, e) {
			s += " " + n
		}
	}
	return strings.Join(sortedWords(s), " ")
}

func sortedWords(s string) []string {
	w := strings.Fields(s)
	sort.Strings(w)
	return w
}

func (e *pureEnv) inst(o opSpec) (*thema.Instance, error) {
	k := fmt.Sprint(o.lin, o.sch, jsonText(o.data, nil))
	if i := e.insts[k]; i != nil {
		return i, nil
	}
	i, err := e.lins[o.lin].All()[o.sch].Validate(decode(e.rt, o.data))
	if err == nil {
		e.insts[k] = i
	}
	return i, err
}

func showInst(i *thema.Instance) string {
	if i == nil {
		return "no instance"
	}
	d, err := dataOf(i)
	if err != nil {
		return "unreadable " + err.Error()
	}
	return i.Schema().Lineage().Name() + "@" + i.Schema().Version().String() + " " + jsonText(d, nil)
}

func (e *pureEnv) bytes(b []byte) string {
	s := string(b)
	if e.spoil {
		for i := range b {
			b[i] = 'X'
		}
	}
	return s
}

func (e *pureEnv) lacs(l thema.TranslationLacunas) string {
	if l == nil {
		return "[]"
	}
	ls := l.AsList()
	s := fmt.Sprintf("%q", gotLacs(l))
	if e.spoil {
		for i := range ls {
			ls[i].Message = "spoilt"
		}
	}
	return s
}

// do performs an operation and renders its result.
func (e *pureEnv) do(o opSpec) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic: ", p)
		}
	}()
	lin := e.lins[o.lin]
	all := lin.All()
	sch := all[o.sch]
	to := all[o.to].Version()
	if e.spoil {
		for i := range all {
			all[i] = nil
		}
	}
	switch o.kind {
	case "validate":
		i, err := sch.Validate(decode(e.rt, o.data))
		if err != nil {
			return errClass(err)
		}
		return showInst(i)
	case "any":
		return showInst(lin.ValidateAny(decode(e.rt, o.data)))
	case "translate", "hydrate", "dehydrate", "again":
		i, err := e.inst(o)
		if err != nil {
			return errClass(err)
		}
		switch o.kind {
		case "hydrate":
			return showInst(i.Hydrate())
		case "dehydrate":
			return showInst(i.Dehydrate())
		case "again":
			return showInst(i)
		}
		t, lac, err := i.Translate(to)
		if err != nil {
			return errClass(err)
		}
		return showInst(t) + e.lacs(lac)
	case "mux-untyped":
		k := fmt.Sprint(o.lin, o.to)
		if e.muxU[k] == nil {
			e.muxU[k] = vmux.NewUntypedMux(thema.SchemaP(lin, to), jsonC)
		}
		b := []byte(jsonText(o.data, nil))
		i, lac, err := e.muxU[k](b)
		e.bytes(b)
		if err != nil {
			return errClass(err)
		}
		return showInst(i) + e.lacs(lac)
	case "mux-byte":
		k := fmt.Sprint(o.lin, o.to)
		if e.muxB[k] == nil {
			e.muxB[k] = vmux.NewByteMux(thema.SchemaP(lin, to), jsonC)
		}
		b := []byte(jsonText(o.data, nil))
		r, lac, err := e.muxB[k](b)
		e.bytes(b)
		if err != nil {
			return errClass(err)
		}
		return e.bytes(r) + e.lacs(lac)
	case "mux-malformed":
		k := fmt.Sprint(o.lin, o.to)
		if e.muxB[k] == nil {
			e.muxB[k] = vmux.NewByteMux(thema.SchemaP(lin, to), jsonC)
		}
		_, _, err := e.muxB[k]([]byte("{\"a\": ["))
		if err != nil {
			return errClass(err)
		}
		return "accepted"
	case "openapi":
		f, err := openapi.GenerateSchema(sch, e.oapi[o.config])
		if err != nil {
			return "error"
		}
		s, err := fileJSON(e.rt.Context(), f)
		if err != nil {
			return "error in file"
		}
		return s
	case "jsonschema":
		f, err := jsonschema.GenerateSchema(sch)
		if err != nil {
			return "error"
		}
		s, err := fileJSON(e.rt.Context(), f)
		if err != nil {
			return "error in file"
		}
		return s
	case "gocode":
		b, err := gocode.GenerateTypesOpenAPI(sch, e.gocf[o.config])
		if err != nil {
			return "error"
		}
		return e.bytes(b)
	case "typescript":
		f, err := typescript.GenerateTypes(sch, e.tsc[o.config])
		if err != nil {
			return "error"
		}
		return f.String()
	case "bindings":
		b, err := gocode.GenerateLineageBinding(lin, e.bcf[o.config])
		if err != nil {
			return "error"
		}
		return e.bytes(b)
	case "new-lineage":
		f, err := tcue.NewLineage(sch.Underlying().LookupPath(cue.ParsePath("schema")), "made", "p")
		if err != nil {
			return "error"
		}
		b, err := format.Node(f)
		if err != nil {
			return "error in file"
		}
		return e.bytes(b)
	case "navigate":
		var p []string
		for s := lin.First(); s != nil; s = s.Successor() {
			p = append(p, s.Version().String())
		}
		lmj, _ := sch.LatestInMajor().Version(), 0
		return fmt.Sprint(lin.Name(), p, lin.Latest().Version(), lmj, len(lin.All()))
	case "lookup":
		_, err := lin.Schema(thema.SV(uint(o.to), 99))
		if err == nil {
			return "found"
		}
		return errClass(err)
	case "append-only":
		if err := thema.IsAppendOnly(lin, e.lins[o.to%len(e.lins)]); err != nil {
			return "error"
		}
		return "ok"
	case "rebind":
		l, err := thema.BindLineage(e.raw[o.lin], e.rt)
		if err != nil {
			return errClass(err)
		}
		return fmt.Sprint(l.Name(), allVers(l))
	case "bad-bind":
		src := strings.Replace(e.ls[o.lin].body(), "version: [0, 0]", "version: [0, 1]", 1)
		_, err := bindSrc(e.rt, src)
		if err == nil {
			return "accepted"
		}
		return errClass(err)
	case "examples":
		ex := sch.Examples()
		var names []string
		for k := range ex {
			names = append(names, k)
		}
		sort.Strings(names)
		s := fmt.Sprint(len(ex))
		for _, k := range names {
			s += fmt.Sprintf(" %q: %s", k, showInst(ex[k]))
		}
		if e.spoil {
			for k := range ex {
				delete(ex, k)
			}
			ex["spoilt"] = nil
		}
		return s
	}
	panic("unknown operation " + o.kind)
}

var pureKinds = []string{"validate", "validate", "any", "translate", "translate", "translate", "hydrate", "dehydrate", "again", "mux-untyped", "mux-byte", "mux-malformed", "openapi", "openapi", "jsonschema", "gocode", "typescript", "bindings", "new-lineage", "navigate", "lookup", "append-only", "rebind", "bad-bind", "examples"}

func runP28(c *Ctx) {
	var ls []*Lin
	n := 2 + c.Intn(2)
	for i := 0; i < n; i++ {
		lc := stdLin()
		lc.max = 3
		lc.maps = false
		lc.join = c.Intn(8) == 0
		lc.examples = c.Intn(3) == 0
		l := genLin(c.Rand, lc)
		if c.Intn(3) > 0 {
			l.Name = "Same" // lineages may share a name
		}
		ls = append(ls, l)
		c.note("lineage %d (%s):\n%s", i, l.shape(), l.body())
	}
	env, err := newPureEnv(ls)
	if err != nil {
		c.fail("bind", "a valid lineage is rejected: %s", oneLine(err))
		return
	}
	env.spoil = true
	var pool []opSpec
	kinds := pureKinds
	if c.Intn(2) == 0 { // concentrate on a few
		kinds = []string{pick(c.Rand, pureKinds), pick(c.Rand, pureKinds)}
		c.count("concentrated")
	}
	for i := 0; i < 9; i++ {
		o := opSpec{kind: pick(c.Rand, kinds), lin: c.Intn(n), config: c.Intn(4)}
		l := ls[o.lin]
		o.sch, o.to = c.Intn(len(l.Schs)), c.Intn(len(l.Schs))
		o.data = l.Schs[o.sch].T.gen(c.Rand)
		if c.Intn(4) == 0 {
			if nd, _, ok := l.Schs[o.sch].T.corrupt(c.Rand, o.data); ok && !l.anyAmbiguous(nd) {
				o.data = nd
			}
		}
		if l.anyAmbiguous(o.data) || yamlHostile(o.data) {
			continue
		}
		pool = append(pool, o)
	}
	if len(pool) == 0 {
		return
	}
	if k := os.Getenv("VERIF_P28_ALONE"); k != "" { // the process a result is compared with
		i, err := strconv.Atoi(k)
		must(err)
		must(os.WriteFile(os.Getenv("VERIF_P28_OUT"), []byte(env.do(pool[i])), 0o644))
		cleanup()
		os.Exit(0)
	}
	// In some cases the reference comes from a process of its own, which no
	// earlier operation on any lineage can have influenced.
	ownProcess := c.Case%4 == 0
	want := map[int]string{}
	alone := func(k int) string {
		if s, ok := want[k]; ok {
			return s
		}
		if ownProcess {
			want[k] = c.otherProcess(k)
			c.count("reference:own-process")
			return want[k]
		}
		fresh, err := newPureEnv(ls)
		must(err)
		want[k] = fresh.do(pool[k])
		return want[k]
	}
	var hist []string
	for i := 0; i < 32; i++ {
		k := c.Intn(len(pool))
		o := pool[k]
		cfgs := fmt.Sprintf("%+v %+v %+v %+v", derefs(env.oapi), derefs(env.gocf), derefs(env.tsc), derefs(env.bcf))
		got := env.do(o)
		hist = append(hist, o.kind)
		c.eval(o.kind)
		c.distinct(ls[o.lin].body(), o.String(), i)
		if w := alone(k); got != w {
			c.fail("history", "%s gives\n%s\nafter %v; alone it gives\n%s", o, trunc(got, 900), hist, trunc(w, 900))
			return
		}
		if now := fmt.Sprintf("%+v %+v %+v %+v", derefs(env.oapi), derefs(env.gocf), derefs(env.tsc), derefs(env.bcf)); now != cfgs {
			c.fail("config", "%s changed the caller's configuration from %s to %s", o, cfgs, now)
			return
		}
	}
}

// otherProcess performs operation k of this case in a new process.
func (c *Ctx) otherProcess(k int) string {
	exe, err := os.Executable()
	must(err)
	d := scratch()
	defer os.RemoveAll(d)
	out := filepath.Join(d, "out")
	cmd := exec.Command(exe, "-tier", c.Tier, "-case", strconv.Itoa(c.Case), c.ID)
	cmd.Env = append(os.Environ(), "VERIF_P28_ALONE="+strconv.Itoa(k), "VERIF_P28_OUT="+out, fmt.Sprintf("VERIF_SEED=%d", c.Seed))
	msg, err := cmd.CombinedOutput()
	if err != nil {
		panic(fmt.Sprintf("reference process: %v\n%s", err, msg))
	}
	b, err := os.ReadFile(out)
	must(err)
	return string(b)
}

func derefs[T any](s []*T) (r []any) {
	for _, p := range s {
		if p == nil {
			r = append(r, nil)
		} else {
			r = append(r, *p)
		}
	}
	return
}
