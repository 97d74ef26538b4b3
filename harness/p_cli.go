package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "P26", Quick: 200, Thorough: 1500,
		Rule: "random lineages on disk (file or package, root or below a path, with or without a cue.mod above, other files around, relative or absolute, from several working directories); the built CLI validates, searches, translates, hydrates and dehydrates valid, faulty and malformed data from files and pipes, in JSON and YAML, and misused command lines (absent or several files, unknown formats, paths and versions, failing lenses, ambiguous directories); exit code, output and the untouched directory are compared with the model; distinct by lineage, command line and data",
		Run:  runP26})
}

type cliRun struct {
	code     int
	out, err string
	args     []string
}

func (r cliRun) String() string {
	return fmt.Sprintf("thema %s: exit %d, stdout %s, stderr %s", strings.Join(r.args, " "), r.code, trunc(fmt.Sprintf("%q", r.out), 800), trunc(fmt.Sprintf("%q", r.err), 800))
}

// cli runs the program in dir. A nil stdin leaves it without one.
func (c *Ctx) cli(dir string, stdin []byte, args ...string) cliRun {
	exe := os.Getenv("VERIF_CLI")
	if exe == "" {
		panic("VERIF_CLI is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Dir = dir
	// PWD is set so that relative paths do not depend on the caller.
	cmd.Env = append(os.Environ(), "PWD="+dir, "GOMAXPROCS=2")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin) // a pipe, as it is not a file
	}
	err := cmd.Run()
	r := cliRun{out: o.String(), err: e.String(), args: args}
	if x, ok := err.(*exec.ExitError); ok {
		r.code = x.ExitCode()
	} else if err != nil {
		r.code = -2
		r.err += err.Error()
	}
	if r.code != 0 && r.code != 1 || strings.Contains(r.err, "goroutine 1 [") {
		c.fail("cli-crash", "%s", r)
	}
	return r
}

// snapshot is the content of every file below a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		b, err := os.ReadFile(p)
		m[rel] = string(b)
		return err
	}))
	return m
}

// changed lists what differs between two snapshots.
func changed(a, b map[string]string) []string {
	var r []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, "removed "+k)
		} else if v != w {
			r = append(r, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			r = append(r, "added "+k)
		}
	}
	return r
}

func write(f, s string) {
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	must(os.WriteFile(f, []byte(s), 0o644))
}

// placed is a lineage laid out on disk.
type placed struct {
	root    string // scratch directory
	dir     string // directory of the lineage
	file    string // its main file
	cwd     string
	flags   []string // -l, -p
	cuepath string
	mod     string
	form    string
	pkg     string
}

// place writes a lineage below a scratch directory in one of the layouts the
// command line documents.
func (c *Ctx) place(l *Lin, layout string) *placed {
	p := &placed{root: scratch(), pkg: "kind"}
	sub := []string{"", "lins", "a/b/kind"}[c.Intn(3)]
	p.dir = filepath.Join(p.root, "w", sub)
	must(os.MkdirAll(p.dir, 0o755))
	if c.Intn(2) == 0 {
		// the module's name, and where it is
		p.mod = []string{"example.com/x", "x.y", "github.com/acme/kit"}[c.Intn(3)]
		write(filepath.Join(p.root, "w", "cue.mod", "module.cue"), fmt.Sprintf("module: %q\n", p.mod))
	}
	imp := c.Intn(2) == 0
	body := l.body()
	var src string
	// a package of the same module, that gives the lineage its name
	local := p.mod != "" && c.Intn(2) == 0
	if name := "name: " + cueLit(l.Name) + "\n"; local && strings.HasPrefix(body, name) {
		write(filepath.Join(p.root, "w", "common", "consts", "consts.cue"), "package consts\n\nlinname: "+cueLit(l.Name)+"\n")
		body = "name: consts.linname\n" + strings.TrimPrefix(body, name)
	}
	switch c.Intn(3) {
	case 0:
		p.form = "root"
		src = body
		if imp {
			src = "thema.#Lineage\n" + body
		}
	case 1:
		p.form, p.cuepath = "field", "lin"
		src = "lin: {\n" + body + "}\nother: 3\n"
		if imp {
			src = "lin: thema.#Lineage & {\n" + body + "}\nother: 3\n"
		}
	case 2:
		p.form, p.cuepath = "nested", `deep."quo ted".lin`
		src = "deep: \"quo ted\": lin: {\n" + body + "}\n"
		if imp {
			src = "deep: \"quo ted\": lin: thema.#Lineage\ndeep: \"quo ted\": lin: {\n" + body + "}\n"
		}
	}
	if imp {
		src = "import \"github.com/grafana/thema\"\n\n" + src
	}
	if local {
		src = fmt.Sprintf("import %q\n\n", p.mod+"/common/consts") + src
		p.form += "-local"
	}
	target := "file"
	if layout == "dir" || layout == "" && c.Intn(2) == 0 {
		target = "dir"
	}
	// A directory in a module is loaded as a package; everything else may do
	// without a package clause.
	if c.Intn(5) == 0 && (target == "file" || p.mod == "") {
		p.pkg = ""
	} else {
		src = "package " + p.pkg + "\n\n" + src
	}
	p.file = filepath.Join(p.dir, "lineage.cue")
	write(p.file, src)
	if target == "dir" {
		target = p.dir
		p.form += "-dir"
		if p.pkg == "" {
			p.form += "-nopkg"
		} else if c.Intn(2) == 0 && p.cuepath != "" {
			write(filepath.Join(p.dir, "more.cue"), "package "+p.pkg+"\nunrelated: \"x\"\n")
		}
	} else {
		target = p.file
		if c.Intn(2) == 0 {
			write(filepath.Join(p.dir, "beside.cue"), "package kind\nname: 5\nlin: 5\n")
		}
		p.form += "-file"
	}
	write(filepath.Join(p.dir, "README.txt"), "not cue")
	switch c.Intn(4) {
	case 0:
		p.cwd = p.dir
	case 1:
		p.cwd = p.root
	case 2:
		p.cwd = filepath.Join(p.root, "elsewhere")
		must(os.MkdirAll(p.cwd, 0o755))
	case 3:
		p.cwd = filepath.Join(p.root, "w")
	}
	if c.Intn(2) == 0 {
		rel, err := filepath.Rel(p.cwd, target)
		must(err)
		target = rel
		p.form += "-rel"
	}
	p.flags = []string{"-l", target}
	if p.cuepath != "" {
		p.flags = append(p.flags, "-p", p.cuepath)
	}
	return p
}

// refused: the command exits 1, says why on standard error, and prints no result.
func (c *Ctx) refused(what string, p *placed, stdin []byte, args ...string) {
	before := snapshot(p.root)
	r := c.cli(p.cwd, stdin, args...)
	c.eval("refused:" + what)
	if r.code != 1 || strings.TrimSpace(r.out) != "" {
		c.fail("cli-misuse", "%s: %s, but the command goes on", r, what)
	} else if strings.TrimSpace(r.err) == "" {
		c.fail("cli-silent", "%s: refused without a word (%s)", r, what)
	}
	if ch := changed(before, snapshot(p.root)); len(ch) > 0 {
		c.fail("cli-files", "%s: files were touched: %v", r, ch)
	}
}

// cliMisuse: what cannot be read, found or meant is refused.
func (c *Ctx) cliMisuse(l *Lin, p *placed) {
	s := pick(c.Rand, l.Schs)
	d := s.T.gen(c.Rand)
	if yamlHostile(d) {
		return
	}
	file := filepath.Join(p.root, "fine.json")
	must(os.WriteFile(file, []byte(jsonText(d, nil)), 0o644))
	op := pick(c.Rand, []string{"validate", "validate-any", "translate", "hydrate", "dehydrate"})
	args := append([]string{"data", op}, p.flags...)
	if op == "translate" || c.Intn(2) == 0 {
		args = append(args, "-v", s.V.String())
	}
	with := func(xs ...string) []string { return append(append([]string{}, args...), xs...) }
	c.refused("absent file", p, nil, with(filepath.Join(p.root, "none.json"))...)
	c.refused("directory", p, nil, with(p.root)...)
	c.refused("two files", p, nil, with(file, file)...)
	c.refused("other extension", p, nil, with("-e", "yaml", file)...)
	c.refused("unknown format", p, nil, with("-e", "toml", file)...)
	c.refused("no lineage", p, nil, "data", op, "-v", s.V.String(), file)
	c.refused("absent path", p, nil, with("-p", "noSuchPath.at.all", file)...)
	c.refused("malformed path", p, nil, with("-p", "a..b", file)...)
	if op == "translate" {
		c.refused("no version", p, nil, append(append([]string{"data", op}, p.flags...), file)...)
	}
	// a lens that fails
	dir := scratch()
	defer os.RemoveAll(dir)
	lin := filepath.Join(dir, "lin.cue")
	bad := pick(c.Rand, []string{"{z: input.a}", "{}", "{z: 1, y: 2}", "{z: input.nope}"})
	must(os.WriteFile(lin, []byte("package x\n\nname: \"demo\"\nschemas: [{version: [0, 0], schema: {a: string}}, {version: [1, 0], schema: {z: int}}]\nlenses: [\n{to: [0, 0], from: [1, 0], input: _, result: {a: \"x\"}},\n{to: [1, 0], from: [0, 0], input: _, result: "+bad+"},\n]\n"), 0o644))
	q := &placed{root: dir, cwd: dir}
	c.refused("failing lens", q, []byte(`{"a": "x"}`), "data", "translate", "-l", "lin.cue", "--to", "1.0")
}

// cliPackages: in a directory of several packages, the one that is a lineage is meant.
func (c *Ctx) cliPackages(l *Lin, p *placed) {
	dir := scratch()
	defer os.RemoveAll(dir)
	q := &placed{root: dir, cwd: dir}
	must(os.Mkdir(filepath.Join(dir, "pk"), 0o755))
	put := func(name, src string) { must(os.WriteFile(filepath.Join(dir, "pk", name), []byte(src), 0o644)) }
	pk := pick(c.Rand, []string{"aa", "mm", "zz"})
	put("lin.cue", "package "+pk+"\n\n"+l.body())
	for i := 0; i < 1+c.Intn(2); i++ {
		put(fmt.Sprintf("o%d.cue", i), fmt.Sprintf("package other%d\n\nname: %q\nx: %d\n", i, "no", i))
	}
	si := c.Intn(len(l.Schs))
	d := l.Schs[si].T.gen(c.Rand)
	if l.anyAmbiguous(d) || yamlHostile(d) {
		return
	}
	for i := 0; i < si; i++ {
		if l.Schs[i].T.valid(d) {
			si = i
		}
	}
	r := c.cli(dir, []byte(jsonText(d, nil)), "data", "validate-any", "-l", "pk")
	c.eval("several-packages")
	if r.code != 0 || r.out != l.Schs[si].V.String()+"\n" {
		c.fail("cli-packages", "%s: want %s for %s", r, l.Schs[si].V, jsonText(d, nil))
	}
	put("second.cue", "package second\n\nname: \"second\"\nschemas: [{version: [0, 0], schema: {a?: string}}]\nlenses: []\n")
	c.refused("two lineages", q, []byte(jsonText(d, nil)), "data", "validate-any", "-l", "pk")
}

func runP26(c *Ctx) {
	lc := stdLin()
	lc.max = 4
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	p := c.place(l, "")
	c.count("placed:" + p.form)
	c.note("lineage (%s) placed %s, module %q, cwd %s:\n%s", l.shape(), p.form, p.mod, p.cwd, l.body())
	first := func(d any) int {
		for i, s := range l.Schs {
			if s.T.valid(d) {
				return i
			}
		}
		return -1
	}
	for k := 0; k < 9; k++ {
		si := c.Intn(len(l.Schs))
		s := l.Schs[si]
		var d any = s.T.gen(c.Rand)
		kind := "valid"
		if c.Intn(4) == 0 {
			if nd, _, ok := s.T.corrupt(c.Rand, d); ok {
				d, kind = nd, "faulty"
			}
		}
		if l.anyAmbiguous(d) || yamlHostile(d) {
			continue
		}
		txt, ext := jsonText(d, c.Rand), ".json"
		if c.Intn(3) == 0 {
			txt, ext = yamlText(d), pick(c.Rand, []string{".yaml", ".yml"})
		}
		if c.Intn(12) == 0 {
			kind, txt = "malformed", pick(c.Rand, []string{"{\"a\": [", "a: [1", "\"unclosed", "{]"})
		}
		var extra []string
		if c.Intn(4) == 0 {
			extra = []string{"-e", map[string]string{".json": "json", ".yaml": "yaml", ".yml": "yaml"}[ext]}
		} else if c.Intn(5) == 0 {
			ext = pick(c.Rand, []string{"", ".txt", ".dat"})
		}
		var stdin []byte
		file := ""
		if c.Intn(3) == 0 && len(extra) == 0 {
			stdin = []byte(txt)
		} else {
			file = filepath.Join(p.root, "data"+fmt.Sprint(k)+ext)
			must(os.WriteFile(file, []byte(txt), 0o644))
			if c.Intn(3) == 0 {
				rel, _ := filepath.Rel(p.cwd, file)
				file = rel
			}
			extra = append(extra, file)
		}
		target := c.Intn(len(l.Schs))
		withV := c.Intn(2) == 0
		op := pick(c.Rand, []string{"validate", "validate-any", "translate", "translate", "hydrate", "dehydrate"})
		args := append([]string{"data", op}, p.flags...)
		tv := l.Schs[target].V
		badV := false
		switch {
		case op == "translate":
			args = append(args, pick(c.Rand, []string{"--to", "-v"}), tv.String())
		case withV:
			if c.Intn(8) == 0 {
				args, badV = append(args, "-v", pick(c.Rand, []string{"77.0", "x", "1", "0.0.0", "-1.0"})), true
			} else {
				args = append(args, "-v", tv.String())
			}
		}
		quiet := strings.HasPrefix(op, "validate") && !badV && kind != "malformed" && c.Intn(4) == 0
		if quiet {
			args = append(args, pick(c.Rand, []string{"-q", "--quiet"}))
		}
		args = append(args, extra...)
		before := snapshot(p.root)
		r := c.cli(p.cwd, stdin, args...)
		if ch := changed(before, snapshot(p.root)); len(ch) > 0 {
			c.fail("cli-files", "%s: files were touched: %v", r, ch)
		}
		c.eval(op + ":" + kind)
		c.distinct(l.body(), strings.Join(args, " "), txt)
		c.note("data (%s): %s", kind, txt)
		fail := func(why string) {
			c.eval("refused")
			if r.code != 1 || strings.TrimSpace(r.out) != "" {
				c.fail("cli-accepts", "%s: %s, data %s", r, why, txt)
			}
			if quiet {
				c.eval("quiet:refused")
				if r.err != "" {
					c.fail("cli-quiet", "%s: was to be quiet", r)
				}
			} else if strings.TrimSpace(r.err) == "" && (op != "validate-any" || withV || kind == "malformed") {
				c.fail("cli-silent", "%s: refused without a word (%s)", r, why)
			}
		}
		if kind == "malformed" {
			fail("malformed input")
			continue
		}
		if badV {
			fail("no such version")
			continue
		}
		if r.code != 0 && r.code != 1 {
			continue
		}
		// Which schema the command takes the data for.
		src := first(d)
		switch {
		case op == "validate":
			src = -1
			want := len(l.Schs) - 1
			if withV {
				want = target
			}
			if l.Schs[want].T.valid(d) {
				src = want
			}
		case withV && op == "validate-any":
			if l.Schs[target].T.valid(d) {
				src = target
			}
		case withV && op != "translate":
			src = -1
			if l.Schs[target].T.valid(d) {
				src = target
			}
		}
		if src < 0 {
			fail("no schema admits the data")
			continue
		}
		if r.code != 0 {
			c.fail("cli-refuses", "%s: the data %s is an instance of %s", r, txt, l.Schs[src].V)
			continue
		}
		if quiet {
			c.eval("quiet:accepted")
			if r.out != "" || r.err != "" {
				c.fail("cli-quiet", "%s: was to be quiet", r)
			}
			continue
		}
		switch op {
		case "validate":
			if r.out != "" {
				c.fail("cli-output", "%s: success is to print nothing", r)
			}
		case "validate-any":
			if r.out != l.Schs[src].V.String()+"\n" {
				c.fail("cli-output", "%s: want %s for %s", r, l.Schs[src].V, txt)
			}
		case "hydrate":
			got, err := parseJSON([]byte(r.out))
			want := l.Schs[src].T.hydrate(d)
			if err != nil || !dataEq(got, want) {
				c.fail("cli-output", "%s: want %s for %s", r, jsonText(want, nil), txt)
			}
		case "dehydrate":
			got, err := parseJSON([]byte(r.out))
			t := l.Schs[src].T
			if err != nil || !t.valid(got) || !dataEq(t.hydrate(got), t.hydrate(d)) {
				c.fail("cli-output", "%s: the output does not stand for %s (%v)", r, txt, err)
			}
		case "translate":
			want, wl := l.translate(d, l.Schs[src].V, tv)
			got, err := parseJSON([]byte(r.out))
			m, _ := got.(map[string]any)
			if err != nil || m == nil || m["from"] != l.Schs[src].V.String() || m["to"] != tv.String() || !dataEq(m["result"], want) {
				c.fail("cli-output", "%s: want %s -> %s: %s for %s (%v)", r, l.Schs[src].V, tv, jsonText(want, nil), txt, err)
				continue
			}
			var msgs []string
			ls, _ := m["lacunas"].([]any)
			for _, x := range ls {
				xm, _ := x.(map[string]any)
				xs, _ := xm["lacunas"].([]any)
				for _, y := range xs {
					ym, _ := y.(map[string]any)
					msgs = append(msgs, fmt.Sprint(ym["message"]))
				}
			}
			var wm []string
			for _, x := range wl {
				wm = append(wm, x.Lac.Msg)
			}
			if !eqStrs(msgs, wm) {
				c.fail("cli-lacunas", "%s: lacunas %q, want %q", r, msgs, wm)
			}
			c.count(fmt.Sprintf("lacunas:%v", len(wm) > 0))
		}
	}
	switch c.Intn(3) {
	case 0:
		c.cliMisuse(l, p)
	case 1:
		c.cliPackages(l, p)
	}
	// a lineage that is none
	if c.Intn(3) == 0 {
		bad := filepath.Join(p.root, "bad.cue")
		must(os.WriteFile(bad, []byte(pick(c.Rand, []string{"package x\nname: 3\n", "{{{", "package x\nname: \"a\"\nschemas: [{version: [0, 1], schema: {}}]\n"})), 0o644))
		r := c.cli(p.cwd, []byte("{}"), "data", "validate-any", "-l", bad)
		c.eval("bad-lineage")
		if r.code != 1 || r.out != "" || strings.TrimSpace(r.err) == "" {
			c.fail("cli-bad-lineage", "%s: want a refusal", r)
		}
		r = c.cli(p.cwd, []byte("{}"), "data", "validate-any", "-l", filepath.Join(p.root, "absent.cue"))
		if r.code != 1 || r.out != "" || strings.TrimSpace(r.err) == "" {
			c.fail("cli-bad-lineage", "%s: want a refusal", r)
		}
	}
}
