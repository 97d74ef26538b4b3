package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"cuelang.org/go/cue"
	"github.com/dave/dst"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
)

func init() {
	register(&Check{ID: "P30", Quick: 32, Thorough: 300,
		Rule: "random lineages laid out below a scratch Go module, with or without cue.mod files; bindings (and types) are generated for each with a random choice of the documented options by the library or the built CLI; all are compiled into one program, which binds every lineage through the documented factory and validates and translates data; results are compared with the model; distinct by lineage and options",
		Run:  runP30})
}

// bound is a package with generated bindings.
type bound struct {
	l       *Lin
	dir     string // relative to the Go module
	pkg     string // Go package
	conv    bool
	target  int
	data    []string
	vals    []any
	broken  bool // the lineage became invalid after generation
	what    string
	factory string
}

type bindOut struct {
	Err    string
	Name   string
	Vers   []string
	Any    []string   // per datum, the version found
	Trans  [][]string // per datum and version, the translation
	TVer   string
	Typed  []string // per datum: Go value as JSON, or ""
	TypErr []string
}

func runP30(c *Ctx) {
	root := scratch()
	mod, err := os.ReadFile(filepath.Join(verifDir(), "harness/go.mod"))
	must(err)
	sum, err := os.ReadFile(filepath.Join(verifDir(), "harness/go.sum"))
	must(err)
	write(filepath.Join(root, "go.mod"), regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(mod), "module example.com/batch"))
	write(filepath.Join(root, "go.sum"), string(sum))
	var bs []*bound
	for i := 0; len(bs) < 8 && i < 40; i++ {
		if b := c.binding(root, fmt.Sprintf("k%d", i)); b != nil {
			bs = append(bs, b)
		}
	}
	var mainSrc, calls strings.Builder
	mainSrc.WriteString("package main\n\nimport (\n\"encoding/json\"\n\"os\"\n\"fmt\"\n\"cuelang.org/go/cue/cuecontext\"\n\"github.com/grafana/thema\"\n")
	specs := map[string][]string{}
	for i, b := range bs {
		fmt.Fprintf(&mainSrc, "k%d \"example.com/batch/%s\"\n", i, b.dir)
		fmt.Fprintf(&calls, "\tout[%d] = run(k%d.Factory, k%d.Typed, specs[\"%d\"])\n", i, i, i, i)
		specs[fmt.Sprint(i)] = b.data
	}
	sb, err := json.Marshal(specs)
	must(err)
	write(filepath.Join(root, "specs.json"), string(sb))
	fmt.Fprintf(&mainSrc, `)

type res struct {
	Err    string
	Name   string
	Vers   []string
	Any    []string
	Trans  [][]string
	TVer   string
	Typed  []string
	TypErr []string
}

func run(f func(*thema.Runtime, ...thema.BindOption) (thema.Lineage, error), typed func(*thema.Runtime, string) (string, string, error), data []string) (r res) {
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprint("panic: ", e)
		}
	}()
	rt := thema.NewRuntime(cuecontext.New())
	lin, err := f(rt)
	if err != nil {
		if lin != nil {
			r.Err = "both a lineage and an error: "
		}
		r.Err += err.Error()
		return
	}
	r.Name = lin.Name()
	for _, s := range lin.All() {
		r.Vers = append(r.Vers, s.Version().String())
	}
	for _, d := range data {
		v := rt.Context().CompileString(d)
		in := lin.ValidateAny(v)
		if in == nil {
			r.Any = append(r.Any, "")
			r.Trans = append(r.Trans, nil)
		} else {
			r.Any = append(r.Any, in.Schema().Version().String())
			var ts []string
			for _, s := range lin.All() {
				t, _, err := in.Translate(s.Version())
				if err != nil {
					ts = append(ts, "error: "+err.Error())
					continue
				}
				b, _ := t.Underlying().MarshalJSON()
				ts = append(ts, string(b))
			}
			r.Trans = append(r.Trans, ts)
		}
		if typed != nil {
			ver, val, err := typed(rt, d)
			r.TVer = ver
			r.Typed = append(r.Typed, val)
			e := ""
			if err != nil {
				e = err.Error()
			}
			r.TypErr = append(r.TypErr, e)
		}
	}
	return
}

func main() {
	b, err := os.ReadFile("specs.json")
	if err != nil {
		panic(err)
	}
	var specs map[string][]string
	if err := json.Unmarshal(b, &specs); err != nil {
		panic(err)
	}
	out := make([]res, %d)
%s	b, err = json.Marshal(out)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}
`, len(bs), calls.String())
	write(filepath.Join(root, "main.go"), mainSrc.String())
	goRun := func(args ...string) (string, string, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "PWD="+root)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		return o.String(), e.String(), err
	}
	if _, e, err := goRun("build", "-o", "prog", "."); err != nil {
		if !strings.Contains(e, "_gen.go") && !strings.Contains(e, "hand.go") && !strings.Contains(e, "no matching files") {
			panic(fmt.Sprintf("the batch does not build: %s", e))
		}
		var w []string
		for _, b := range bs {
			if strings.Contains(e, b.dir+"/") {
				w = append(w, b.what)
			}
		}
		c.fail("compile", "generated bindings do not compile: %s\n%s", trunc(e, 1200), strings.Join(w, "\n"))
		return
	}
	for _, b := range bs {
		if b.broken {
			// what is embedded was changed before the build
			c.count("broken")
		}
	}
	cmd := exec.Command(filepath.Join(root, "prog"))
	cmd.Dir = root
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		c.fail("run", "the program with the bindings fails: %s", trunc(e.String(), 1500))
		return
	}
	var outs []bindOut
	must(json.Unmarshal(o.Bytes(), &outs))
	for i, b := range bs {
		c.judgeBound(b, outs[i])
	}
}

func (c *Ctx) judgeBound(b *bound, r bindOut) {
	l := b.l
	c.eval("bound")
	if b.broken {
		if r.Err == "" || strings.HasPrefix(r.Err, "panic") || strings.HasPrefix(r.Err, "both") {
			c.fail("broken", "the lineage is invalid, but the factory says %q: %s", r.Err, b.what)
		}
		return
	}
	if r.Err != "" {
		c.fail("factory", "the factory fails: %s\n%s", r.Err, b.what)
		return
	}
	var vs []string
	for _, s := range l.Schs {
		vs = append(vs, s.V.String())
	}
	if r.Name != l.Name || fmt.Sprint(r.Vers) != fmt.Sprint(vs) {
		c.fail("lineage", "the factory gives %s %v, want %s %v\n%s", r.Name, r.Vers, l.Name, vs, b.what)
		return
	}
	for k, d := range b.vals {
		want := -1
		for i, s := range l.Schs {
			if s.T.valid(d) {
				want = i
				break
			}
		}
		c.eval("validate")
		w := ""
		if want >= 0 {
			w = l.Schs[want].V.String()
		}
		if r.Any[k] != w {
			c.fail("validate", "%s is taken for %q, want %q\n%s", b.data[k], r.Any[k], w, b.what)
			continue
		}
		if want >= 0 {
			for i, s := range l.Schs {
				c.eval("translate")
				wd, _ := l.translate(d, l.Schs[want].V, s.V)
				got, err := parseJSON([]byte(r.Trans[k][i]))
				if err != nil || !dataEq(got, wd) {
					c.fail("translate", "%s of %s becomes %s in %s, want %s\n%s", b.data[k], w, r.Trans[k][i], s.V, jsonText(wd, nil), b.what)
				}
			}
		}
		if b.conv {
			t := l.Schs[b.target]
			c.eval("typed")
			if r.TVer != t.V.String() {
				c.fail("typed-version", "bound to the type is %s, want %s\n%s", r.TVer, t.V, b.what)
				return
			}
			if ok := t.T.valid(d); ok != (r.TypErr[k] == "") {
				c.fail("typed", "%s is valid for %s: %v, but the typed schema says %q\n%s", b.data[k], t.V, ok, r.TypErr[k], b.what)
			} else if ok {
				got, err := parseJSON([]byte(r.Typed[k]))
				if err != nil || !contains(got, t.T.hydrate(d)) {
					c.fail("typed", "%s becomes the Go value %s\n%s", b.data[k], r.Typed[k], b.what)
				}
			}
		}
	}
}

// binding lays out one lineage and generates its bindings.
func (c *Ctx) binding(root, k string) *bound {
	lc := stdLin()
	lc.max = 3
	lc.tuples, lc.nulls, lc.nullAll, lc.openness = false, false, false, false
	lc.lacunas = false
	l := genLin(c.Rand, lc)
	l.Name = pick(c.Rand, []string{"Thing", "lower", "MiXed", "x9", "camelCase"})
	b := &bound{l: l, conv: c.Intn(2) == 0, target: c.Intn(len(l.Schs))}
	latest := c.Intn(2) == 0
	if latest {
		b.target = len(l.Schs) - 1
	}
	if b.conv && l.Schs[b.target].T.goUngenerable() {
		return nil
	}
	useCLI := c.Intn(2) == 0
	// layout
	cuemod := c.Intn(3) > 0
	sub := pick(c.Rand, []string{"", "sub", "a/b"})
	b.dir = filepath.ToSlash(filepath.Join(k, sub))
	cueMod, cuePkg := "", "batch"
	if cuemod {
		cueMod = pick(c.Rand, []string{"acme.org/cue/", "x.y/"}) + k
		write(filepath.Join(root, k, "cue.mod/module.cue"), fmt.Sprintf("module: %q\n", cueMod))
		if sub != "" {
			cueMod += "/" + sub
		}
		cuePkg = filepath.Base(cueMod)
	} else {
		cueMod = "example.com/batch"
	}
	imp := c.Intn(2) == 0
	path := pick(c.Rand, []string{"", "lin", `deep."quo ted"`})
	body := l.body()
	inner := body
	if path != "" {
		label := map[string]string{"lin": "lin: ", `deep."quo ted"`: `deep: "quo ted": `}[path]
		if imp {
			inner = label + "thema.#Lineage & {\n" + body + "}\n"
		} else {
			inner = label + "{\n" + body + "}\n"
		}
	} else if imp {
		inner = "thema.#Lineage\n" + body
	}
	src := "package " + cuePkg + "\n\n"
	if imp {
		src += "import \"github.com/grafana/thema\"\n\n"
	}
	src += inner
	dir := filepath.Join(root, b.dir)
	file := filepath.Join(dir, "lineage.cue")
	write(file, src)
	// options
	suffix, private := c.Intn(2) == 0, c.Intn(2) == 0
	noembed, nofs, stdout := c.Intn(5) == 0, c.Intn(5) == 0, c.Intn(6) == 0
	title := ""
	goPkg := ""
	if c.Intn(2) == 0 {
		goPkg = pick(c.Rand, []string{"mypkg", "other"})
	}
	if b.pkg = goPkg; goPkg == "" {
		b.pkg = strings.ToLower(l.Name)
	}
	typ := strings.Title(l.Name)
	rt := newRT()
	pl := &placed{file: file, cuepath: path, pkg: cuePkg}
	lin, err := pl.inProc(rt)
	if err != nil {
		panic(err)
	}
	tv := sv(l.Schs[b.target].V)
	if b.conv {
		src, err := gocode.GenerateTypesOpenAPI(thema.SchemaP(lin, tv), &gocode.TypeConfigOpenAPI{PackageName: goPkg})
		if err != nil {
			c.fail("types", "no types for %s: %s", l.Schs[b.target].T.cue(), err)
			return nil
		}
		write(filepath.Join(dir, "types_gen.go"), string(src))
	}
	out := ""
	if useCLI {
		target := file
		if c.Intn(2) == 0 {
			target = dir
		} else if c.Intn(2) == 0 && !noembed && !nofs && !stdout {
			// not part of what is named
			write(filepath.Join(dir, "beside.cue"), "package "+cuePkg+"\n\nname: 5\nlin: 5\ndeep: 5\n")
		}
		cwd := pick(c.Rand, []string{root, dir})
		if c.Intn(2) == 0 {
			target, err = filepath.Rel(cwd, target)
			must(err)
		}
		args := []string{"lineage", "gen", "gobindings", "-l", target}
		if path != "" {
			args = append(args, "-p", path)
		}
		add := func(on bool, f ...string) {
			if on {
				args = append(args, f...)
			}
		}
		add(suffix, "--suffix")
		add(private, "--private")
		add(noembed, "--no-embed")
		add(nofs, "--no-fs-func")
		add(stdout, "--stdout")
		add(goPkg != "", "--pkgname", goPkg)
		quiet := c.Intn(2) == 0
		add(quiet, "-q")
		if b.conv {
			add(true, "--bind-type", "*"+typ)
			add(!latest, "-v", l.Schs[b.target].V.String())
		}
		before := snapshot(root)
		r := c.cli(cwd, nil, args...)
		after := snapshot(root)
		b.what = fmt.Sprintf("thema %s in %s, %s", strings.Join(args, " "), b.dir, src)
		c.eval("generate:cli")
		if r.code != 0 {
			c.fail("generate", "%s", r)
			return nil
		}
		name := strings.ToLower(l.Name) + "_bindings_gen.go"
		ch := changed(before, after)
		if stdout {
			out = r.out
			if len(ch) > 0 {
				c.fail("files", "%s: touched %v", r, ch)
			}
			write(filepath.Join(dir, "out_gen.go"), out)
		} else {
			rel, _ := filepath.Rel(root, filepath.Join(dir, name))
			if fmt.Sprint(ch) != "[added "+rel+"]" {
				c.fail("files", "%s: touched %v, want %s", r, ch, rel)
				return nil
			}
			out = after[rel]
			if quiet != (r.out == "") {
				c.fail("quiet", "%s", r)
			}
		}
		if stdout {
			noembed, nofs = true, true
		}
	} else {
		cfg := &gocode.BindingConfig{FactoryNameSuffix: suffix, PrivateFactory: private, PackageName: goPkg}
		if c.Intn(3) == 0 {
			title = pick(c.Rand, []string{"Special", "XyZ"})
			cfg.TitleName = title
		}
		if path != "" {
			cfg.CuePath = cue.ParsePath(path)
		}
		if !noembed {
			cfg.EmbedPath = pick(c.Rand, []string{"lineage.cue", "*.cue"})
		}
		if !nofs {
			cfg.CueModName, cfg.LoadDir = cueMod, pick(c.Rand, []string{".", "."})
		}
		if b.conv {
			cfg.Assignee = dst.NewIdent("*" + typ)
			cfg.TargetSchemaVersion = tv
		}
		cp := *cfg
		g, err := gocode.GenerateLineageBinding(lin, cfg)
		c.eval("generate:library")
		b.what = fmt.Sprintf("GenerateLineageBinding(%+v) in %s, %s", cp, b.dir, src)
		if err != nil {
			c.fail("generate", "%s: %s", b.what, err)
			return nil
		}
		out = string(g)
		write(filepath.Join(dir, "lin_gen.go"), out)
		g2, err := gocode.GenerateLineageBinding(lin, cfg)
		if err != nil || string(g2) != out {
			c.fail("repeat", "generating twice differs: %s (%v)", b.what, err)
		}
	}
	c.note("%s\ngenerated: %s", b.what, out)
	c.distinct(src, b.what)
	if !regexp.MustCompile(`(?m)^package ` + b.pkg + `$`).MatchString(out) {
		c.fail("package", "the package is not %s: %s\n%s", b.pkg, trunc(out, 300), b.what)
		return nil
	}
	// the documented name of the factory
	b.factory = "Lineage"
	if suffix {
		if title != "" {
			b.factory += title
		} else {
			b.factory += strings.Title(l.Name)
		}
	}
	if private {
		b.factory = "do" + b.factory
	}
	c.count(fmt.Sprintf("options:embed=%v,fs=%v,conv=%v", !noembed, !nofs, b.conv))
	// what the user is to write by hand
	var hand strings.Builder
	fmt.Fprintf(&hand, "package %s\n\nimport (\n\"os\"\n\"io/fs\"\n\"encoding/json\"\n\"cuelang.org/go/cue/build\"\n\"github.com/grafana/thema\"\n\"github.com/grafana/thema/load\"\n)\n\nvar _ = os.DirFS\nvar _ fs.FS\nvar _ = json.Marshal\nvar _ *build.Instance\nvar _ = load.AsModFS\n\n", b.pkg)
	if nofs {
		fmt.Fprintf(&hand, "func loadInstanceFor%s() (*build.Instance, error) {\nreturn load.InstanceWithThema(load.AsModFS(os.DirFS(%q), %q), \"\")\n}\n", l.Name, dir, cueMod)
	} else if noembed {
		fmt.Fprintf(&hand, "func getThemaFSFor%s() fs.FS {\nreturn load.AsModFS(os.DirFS(%q), %q)\n}\n", l.Name, dir, cueMod)
	}
	if b.conv {
		fmt.Fprintf(&hand, `
var _ thema.ConvergentLineageFactory[*%s] = %s

func Factory(rt *thema.Runtime, o ...thema.BindOption) (thema.Lineage, error) {
	l, err := %s(rt, o...)
	if err != nil {
		if l != nil {
			return l, err
		}
		return nil, err
	}
	return l, nil
}

func Typed(rt *thema.Runtime, d string) (string, string, error) {
	l, err := %s(rt)
	if err != nil {
		return "", "", err
	}
	ts := l.TypedSchema()
	ver := ts.Version().String()
	in, err := ts.ValidateTyped(rt.Context().CompileString(d))
	if err != nil {
		return ver, "", err
	}
	v, err := in.Value()
	if err != nil {
		return ver, "", err
	}
	b, err := json.Marshal(v)
	return ver, string(b), err
}
`, typ, b.factory, b.factory, b.factory)
	} else {
		fmt.Fprintf(&hand, "var Factory thema.LineageFactory = %s\n\nvar Typed func(*thema.Runtime, string) (string, string, error)\n", b.factory)
	}
	write(filepath.Join(dir, "hand.go"), hand.String())
	if b.broken = c.Intn(8) == 0; b.broken {
		bad := strings.Replace(src, "version: [0, 0]", "version: [0, 1]", 1)
		if c.Intn(2) == 0 {
			bad = "package " + cuePkg + "\n\nelse: 3\n"
		}
		write(file, bad)
	}
	for i := 0; i < 3; i++ {
		s := l.Schs[c.Intn(len(l.Schs))]
		var d any = s.T.gen(c.Rand)
		if c.Intn(3) == 0 {
			if nd, _, ok := s.T.corrupt(c.Rand, d); ok {
				d = nd
			}
		}
		if l.anyAmbiguous(d) {
			continue
		}
		b.vals = append(b.vals, d)
		b.data = append(b.data, jsonText(d, nil))
	}
	return b
}
