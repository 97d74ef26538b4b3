package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/grafana/cuetsy"
	"github.com/grafana/cuetsy/ts/ast"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/typescript"
)

func init() {
	register(&Check{ID: "P22", Quick: 80, Thorough: 700,
		Rule: "batches of random schemas; the TypeScript generated for each (interface, chosen root name, no export, group, definitions as types) is type-checked by tsc together with constants holding instances, which must be accepted, and data with one fault that the types can express, which must be refused; the emitted defaults are evaluated by node and compared with the model; distinct by schema, mode and data",
		Run:  runP22})
}

// tsRelaxed: the type as TypeScript expresses it.
func (t *Type) tsRelaxed() *Type {
	n := t.clone()
	n.tsRelax()
	return n
}

func (t *Type) tsRelax() {
	t.Open = true
	switch t.K {
	case KInt:
		t.K, t.Num, t.Lo, t.Hi = KFloat, "number", nil, nil
	case KFloat:
		t.Num = "number"
	case KRegex:
		t.K = KString
	}
	for _, f := range t.Fields {
		f.T.tsRelax()
	}
	if t.Elem != nil {
		t.Elem.tsRelax()
	}
	for _, a := range t.Alts {
		a.tsRelax()
	}
}

// tsExpect: what a line of the batch must do.
type tsExpect struct {
	file string
	line int
	bad  bool
	what string
	txt  string
}

func fileTS(f *ast.File) (s string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f.String(), nil
}

func runP22(c *Ctx) {
	rt := newRT()
	dir := scratch()
	defer os.RemoveAll(dir)
	var exp []tsExpect
	type defExp struct {
		file, key, name string
		t               *Type
	}
	var defExps []defExp
	srcs := map[string][]string{}
	nfile := 0
	if c.Case == 0 {
		c.probeTS(rt)
	}
	for b := 0; b < 12; b++ {
		lc := stdLin()
		lc.min, lc.max = 1, 2
		lc.tuples = false
		lc.lacunas = false
		lc.anyMinor = true
		lc.maps = c.Intn(3) == 0
		lc.join = c.Intn(8) == 0
		l := genLin(c.Rand, lc)
		var opts []thema.BindOption
		defs := map[*Sch]map[string]*Type{}
		if c.Intn(3) == 0 && !lc.join {
			for _, s := range l.Schs {
				s.Src, defs[s] = s.T.withDefs(" @cuetsy(kind=\"interface\")")
			}
		}
		if lc.maps || len(defs) > 0 {
			opts = append(opts, thema.SkipBuggyChecks())
		}
		lin := c.mustBind(rt, l, opts...)
		if lin == nil {
			continue
		}
		for i, s := range l.Schs {
			if s.T.tsUngenerable(false) {
				c.count("skipped")
				continue
			}
			mode := c.Intn(4)
			cfg := &typescript.TypeConfig{}
			root := strings.Title(l.Name)
			export := true
			switch mode {
			case 1:
				cfg.RootName, root = "Chosen", "Chosen"
			case 2:
				cfg.Group = true
			case 3:
				cfg = nil
			}
			if cfg != nil && c.Intn(4) == 0 {
				export = false
				cfg.CuetsyConfig = &cuetsy.Config{Export: false, ImportMapper: cuetsy.IgnoreImportMapper}
			}
			f, err := typescript.GenerateTypes(lin.All()[i], cfg)
			c.eval("generate")
			if err != nil {
				c.fail("generate", "%s of %s: %s", s.V, s.T.cue(), oneLine(err))
				continue
			}
			src, err := fileTS(f)
			if err != nil {
				c.fail("generate", "%s of %s: %s", s.V, s.T.cue(), oneLine(err))
				continue
			}
			file := fmt.Sprintf("f%d.ts", nfile)
			nfile++
			if !export {
				// the root and its defaults are exported all the same
				src = strings.TrimSpace(src) + "\nexport {};\n"
			}
			lines := strings.Split(strings.TrimRight(src, "\n"), "\n")
			put := func(name string, t *Type, n int, what string) {
				rel := t.tsRelaxed()
				for k := 0; k < n; k++ {
					d := t.hydrate(t.gen(c.Rand))
					c.distinct(t.cue(), fmt.Sprint(mode, what), jsonText(d, nil))
					lines = append(lines, fmt.Sprintf("export const v%d: %s = %s;", len(lines), name, jsonText(d, nil)))
					exp = append(exp, tsExpect{file, len(lines), false, what, t.cue()})
					nd, ft, ok := t.corrupt(c.Rand, d)
					if !ok || rel.valid(nd) || t.ambiguous(nd) || ft.Class == "excess" || ft.Class == "kind" && isList(at(nd, ft.Path)) {
						continue
					}
					lines = append(lines, fmt.Sprintf("export const v%d: %s = %s;", len(lines), name, jsonText(nd, nil)))
					exp = append(exp, tsExpect{file, len(lines), true, what + ":" + ft.Class, t.cue()})
				}
			}
			if !tsGroup(cfg) {
				put(root, s.T, 6, "root")
				want := "interface " + root + " "
				c.eval("declaration")
				if !strings.Contains(src, want) {
					c.fail("declaration", "no %q in the TypeScript for %s, mode %d: %s", want, s.V, mode, src)
				}
				if strings.Contains(src, "const default"+root+":") {
					lines = append(lines, "export const theDefaults = default"+root+";")
				}
				defExps = append(defExps, defExp{file, "theDefaults", root, s.T})
			} else {
				c.eval("group")
				if strings.Contains(src, root+" ") {
					c.fail("group", "the root of a group is generated: %s", src)
				}
			}
			for n, dt := range defs[s] {
				put(strings.Trim(n, "#"), dt, 2, "definition")
			}
			srcs[file] = lines
			must(os.WriteFile(filepath.Join(dir, file), []byte(strings.Join(lines, "\n")+"\n"), 0o644))
		}
	}
	if nfile == 0 {
		return
	}
	diags, err := tsc(dir)
	if err != nil {
		panic(err)
	}
	byLine := map[string]string{}
	for _, d := range diags {
		byLine[fmt.Sprintf("%s:%d", d.file, d.line)] = d.msg
	}
	known := map[string]bool{}
	for _, e := range exp {
		k := fmt.Sprintf("%s:%d", e.file, e.line)
		known[k] = true
		msg, bad := byLine[k]
		c.eval(e.what)
		if bad == e.bad {
			continue
		}
		if bad {
			c.fail("refuses", "the TypeScript for %s refuses the instance %s: %s", e.txt, srcs[e.file][e.line-1], msg)
		} else {
			c.fail("admits", "the TypeScript for %s admits %s (%s)", e.txt, srcs[e.file][e.line-1], e.what)
		}
	}
	for _, d := range diags {
		k := fmt.Sprintf("%s:%d", d.file, d.line)
		if !known[k] {
			var l string
			if ls := srcs[d.file]; d.line > 0 && d.line <= len(ls) {
				l = ls[d.line-1]
			}
			c.fail("compile", "the generated TypeScript does not type-check: %s(%d): %s\n%s\n%s", d.file, d.line, d.msg, l, strings.Join(srcs[d.file], "\n"))
		}
	}
	var files []string
	for _, e := range defExps {
		files = append(files, e.file)
	}
	got, err := nodeDefaults(dir, files)
	if err != nil {
		c.fail("run", "the generated TypeScript does not run: %s", err)
		return
	}
	for _, e := range defExps {
		c.eval("defaults")
		want := map[string]any{}
		for _, f := range e.t.Fields {
			switch {
			case f.T.HasDef:
				want[f.Name] = f.T.Def
			case f.T.K == KList && !f.T.Null:
				want[f.Name] = []any{}
			}
		}
		pg, _ := parseJSON([]byte(jsonOf(got[e.file])))
		if !dataEq(floats(pg), floats(any(want))) {
			c.fail("defaults", "defaults of %s are %s, want %s", e.t.cue(), jsonOf(pg), jsonText(want, nil))
		}
	}
}

// nodeDefaults evaluates the constant theDefaults of each file.
func nodeDefaults(dir string, files []string) (map[string]map[string]any, error) {
	got := map[string]map[string]any{}
	js := "const r = {};\nfor (const f of process.argv.slice(2)) { const m = require('./out/' + f.replace('.ts', '.js')); r[f] = m.theDefaults === undefined ? {} : m.theDefaults; }\nconsole.log(JSON.stringify(r));\n"
	must(os.WriteFile(filepath.Join(dir, "run.js"), []byte(js), 0o644))
	cmd := exec.Command("node", append([]string{"run.js"}, files...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%s", trunc(string(out), 3000))
	}
	return got, json.Unmarshal(out, &got)
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

type tsDiag struct {
	file string
	line int
	msg  string
}

var tsDiagRe = regexp.MustCompile(`(?m)^(\S+\.ts)\((\d+),\d+\): error (.*)$`)

// tsc type-checks all files of dir.
func tsc(dir string) ([]tsDiag, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.ts"))
	must(err)
	args := []string{"--strict", "--target", "es2020", "--module", "commonjs", "--skipLibCheck", "--pretty", "false", "--outDir", "out"}
	for _, f := range fs {
		args = append(args, filepath.Base(f))
	}
	cmd := exec.Command("tsc", args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	var ds []tsDiag
	for _, m := range tsDiagRe.FindAllStringSubmatch(string(out), -1) {
		n, _ := strconv.Atoi(m[2])
		ds = append(ds, tsDiag{m[1], n, m[3]})
	}
	if err != nil && len(ds) == 0 {
		return nil, fmt.Errorf("tsc: %w: %s", err, trunc(string(out), 3000))
	}
	return ds, nil
}

var tsProbes = []struct{ key, sch string }{
	{"tuple", `{t: [string, int32]}`},
	{"branch-name", `{f: {kind: "a", "x-y": string} | {kind: "b"}}`},
	{"nested-name", `{a: {"x-y": string}}`},
}

func (c *Ctx) probeTS(rt *thema.Runtime) {
	// {a: string | *"a\b"}
	lin, err := bindSrc(rt, "name: \"probe\"\nschemas: [{version: [0, 0], schema: {a: string | *\"a\\\\b\"}}]\nlenses: []\n")
	must(err)
	f, err := typescript.GenerateTypes(lin.First(), nil)
	must(err)
	dir := scratch()
	must(os.WriteFile(filepath.Join(dir, "p.ts"), []byte(f.String()+"\nexport const theDefaults = defaultProbe;\n"), 0o644))
	_, err = tsc(dir)
	must(err)
	if d, err := nodeDefaults(dir, []string{"p.ts"}); err != nil || d["p.ts"]["a"] != `a\b` {
		c.fail("finding:backslash", "the default is %v, %v", d, err)
	}
	if _, err := typescript.GenerateTypes(lin.First(), &typescript.TypeConfig{RootAsType: true}); err != nil {
		c.fail("finding:alias", "%s", err)
	}
	for _, p := range tsProbes {
		lin, err := bindSrc(rt, fmt.Sprintf("name: \"probe\"\nschemas: [{version: [0, 0], schema: %s}]\nlenses: []\n", p.sch))
		must(err)
		c.eval("probe")
		dir := scratch()
		f, err := typescript.GenerateTypes(lin.First(), nil)
		if err != nil {
			c.fail("finding:"+p.key, "%s", err)
			continue
		}
		src, err := fileTS(f)
		if err != nil {
			c.fail("finding:"+p.key, "%s", err)
			continue
		}
		must(os.WriteFile(filepath.Join(dir, "p.ts"), []byte(src), 0o644))
		ds, err := tsc(dir)
		must(err)
		if len(ds) > 0 {
			c.fail("finding:"+p.key, "%s: %v", p.sch, ds)
		}
		os.RemoveAll(dir)
	}
}

var tsIdent = regexp.MustCompile(`^[\pL_$][\pL\d_$]*$`)

// tsUngenerable: known findings.
func (t *Type) tsUngenerable(nested bool) bool {
	for _, f := range t.Fields {
		if nested && !tsIdent.MatchString(f.Name) {
			return true
		}
	}
	if t.HasDef && strings.ContainsAny(jsonText(t.Def, nil), "\\") {
		return true
	}
	return t.anyChild(func(x *Type) bool { return x.tsUngenerable(true) })
}

func isList(v any) bool { _, ok := v.([]any); return ok }

// at: the part of v at a path, nil if there is none.
func at(v any, path []string) any {
	for _, p := range path {
		switch x := v.(type) {
		case map[string]any:
			v = x[p]
		case []any:
			i, err := strconv.Atoi(p)
			if err != nil || i >= len(x) {
				return nil
			}
			v = x[i]
		default:
			return nil
		}
	}
	return v
}

func tsGroup(cfg *typescript.TypeConfig) bool { return cfg != nil && cfg.Group }
