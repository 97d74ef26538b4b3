package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Check{ID: "P27", Quick: 320, Thorough: 4000,
		Rule: "the built CLI generates OpenAPI, JSON Schema and Go types for random lineages laid out on disk, starts lineages (empty, from random JSON Schema and OpenAPI documents, from files and pipes), and rewrites legacy lineages in place; output is compared with the library's for the same schema, or loaded, bound and compared with the model; directories are compared before and after; distinct by lineage or document and command line",
		Run:  runP27})
}

func runP27(c *Ctx) {
	switch c.Intn(5) {
	case 0, 1:
		c.cliGen()
	case 2, 3:
		c.cliInit()
	case 4:
		c.cliFix()
	}
}

// inProc loads a placed lineage without the CLI.
func (p *placed) inProc(rt *thema.Runtime) (thema.Lineage, error) {
	b, err := os.ReadFile(p.file)
	must(err)
	txt := string(b)
	if p.pkg != "" {
		txt = strings.Replace(txt, "package "+p.pkg+"\n", "package p\n", 1)
	} else {
		txt = "package p\n" + txt
	}
	mod := p.mod
	if mod == "" {
		mod = "example.com/p"
	}
	txt = strings.Replace(txt, "package p\n", "package q\n", 1)
	mfs := fstest.MapFS{
		"cue.mod/module.cue": {Data: []byte(fmt.Sprintf("module: %q", mod))},
		"q/a.cue":            {Data: []byte(txt)},
	}
	if b, err := os.ReadFile(filepath.Join(p.root, "w/common/consts/consts.cue")); err == nil {
		mfs["common/consts/consts.cue"] = &fstest.MapFile{Data: b}
	}
	inst, err := load.InstanceWithThema(mfs, "q")
	if err != nil {
		return nil, err
	}
	v := rt.Context().BuildInstance(inst)
	if p.cuepath != "" {
		v = v.LookupPath(cue.ParsePath(p.cuepath))
	}
	return thema.BindLineage(v, rt)
}

func (c *Ctx) cliGen() {
	lc := stdLin()
	lc.max = 3
	op := pick(c.Rand, []string{"openapi", "jsonschema", "gotypes", "gotypes"})
	l := genLin(c.Rand, lc)
	if c.Intn(2) == 0 {
		l.Name = pick(c.Rand, []string{"Thing", "lower", "MiXed", "x9"})
	}
	p := c.place(l, "")
	c.note("lineage (%s) placed %s, module %q, cwd %s:\n%s", l.shape(), p.form, p.mod, p.cwd, l.body())
	rt := newRT()
	lin, err := p.inProc(rt)
	if err != nil {
		panic(err)
	}
	for k := 0; k < 3; k++ {
		args := append([]string{"lineage", "gen", op}, p.flags...)
		sch := lin.Latest()
		if c.Intn(2) == 0 {
			v := l.Schs[c.Intn(len(l.Schs))].V
			args = append(args, pick(c.Rand, []string{"-v", "--version"}), v.String())
			sch = thema.SchemaP(lin, sv(v))
		} else if c.Intn(10) == 0 {
			args = append(args, "-v", pick(c.Rand, []string{"9.9", "1", "x.y", ""}))
			if args[len(args)-1] != "" {
				sch = nil
			}
		}
		before := snapshot(p.root)
		// what the library says
		var want string
		var lerr error
		format, stdout, pkg := "", false, ""
		if sch != nil {
			switch op {
			case "openapi", "jsonschema":
				format = map[string]string{"openapi": "yaml", "jsonschema": "json"}[op]
				if c.Intn(2) == 0 {
					format = pick(c.Rand, []string{"json", "yaml", "yml"})
					args = append(args, "-f", format)
				} else if c.Intn(8) == 0 {
					args = append(args, "-f", pick(c.Rand, []string{"xml", "JSONN", ""}))
					lerr = fmt.Errorf("no such format")
					break
				}
				var v cue.Value
				if op == "openapi" {
					f, err := openapi.GenerateSchema(sch, nil)
					if lerr = err; err == nil {
						v = rt.Context().BuildFile(f)
					}
				} else {
					f, err := jsonschema.GenerateSchema(sch)
					if lerr = err; err == nil {
						v = rt.Context().BuildFile(f)
					}
				}
				if lerr == nil {
					var b []byte
					b, lerr = v.MarshalJSON()
					want = string(b)
				}
			case "gotypes":
				if c.Intn(2) == 0 {
					pkg = pick(c.Rand, []string{"mypkg", "x", "Thing"})
					args = append(args, "--pkgname", pkg)
				}
				if stdout = c.Intn(2) == 0; stdout {
					args = append(args, "--stdout")
				}
				var b []byte
				b, lerr = gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{PackageName: pkg})
				want = string(b)
			}
		}
		r := c.cli(p.cwd, nil, args...)
		after := snapshot(p.root)
		c.eval("gen:" + op)
		c.distinct(l.body(), p.form, strings.Join(args, " "))
		ch := changed(before, after)
		if sch == nil || lerr != nil {
			c.eval(fmt.Sprintf("gen-refused:version=%v", sch == nil))
			if r.code != 1 || r.out != "" || strings.TrimSpace(r.err) == "" {
				c.fail("gen-accepts", "%s: want a refusal (%v)", r, lerr)
			}
			if len(ch) > 0 {
				c.fail("gen-files", "%s: files were touched: %v", r, ch)
			}
			continue
		}
		if r.code != 0 {
			c.fail("gen-refuses", "%s", r)
			continue
		}
		switch {
		case op != "gotypes":
			if len(ch) > 0 {
				c.fail("gen-files", "%s: files were touched: %v", r, ch)
			}
			wd, err := parseJSON([]byte(want))
			must(err)
			var got any
			if format == "json" {
				got, err = parseJSON([]byte(r.out))
			} else {
				got, err = parseYAML([]byte(r.out))
				if strings.HasPrefix(strings.TrimSpace(r.out), "{") {
					c.fail("gen-format", "%s: this is not YAML in block style", r)
				}
			}
			if err != nil || !dataEq(got, wd) {
				c.fail("gen-output", "%s: want %s (%v)", r, trunc(want, 600), err)
			}
		default:
			txt := r.out
			if !stdout {
				name := strings.ToLower(l.Name) + "_types_gen.go"
				rel, _ := filepath.Rel(p.root, filepath.Join(p.dir, name))
				for _, x := range ch {
					if x != "added "+rel && x != "changed "+rel {
						c.fail("gen-files", "%s: touched: %v, want only %s", r, ch, rel)
					}
				}
				txt = after[rel]
				if txt == "" {
					c.fail("gen-files", "%s: %s was not written (%v)", r, rel, ch)
					continue
				}
			} else if len(ch) > 0 {
				c.fail("gen-files", "%s: files were touched: %v", r, ch)
			}
			i := strings.Index(txt, "package ")
			for j := 0; i >= 0 && i > 0 && txt[i-1] != '\n' && j < 5; j++ {
				n := strings.Index(txt[i+1:], "package ")
				if n < 0 {
					break
				}
				i += 1 + n
			}
			if i < 0 || strings.TrimSpace(txt[i:]) != strings.TrimSpace(want[strings.Index(want, "package "):]) {
				c.fail("gen-output", "%s: the code is not the library's:\n%s\nwant\n%s", r, trunc(txt, 1500), trunc(want, 1500))
			} else if !strings.HasPrefix(txt, "// ") {
				c.fail("gen-output", "%s: no header says that the code is generated", r)
			}
			if _, _, err := checkGo([]byte(txt)); err != nil {
				c.count("uncompilable") // P20's business
			}
		}
	}
}

// importable: what CUE's importers of JSON Schema and OpenAPI carry over.
func (t *Type) importable() bool {
	switch t.K {
	case KTuple, KUnion, KDisc, KAny, KMap:
		return false
	}
	return !t.Null && !t.anyChild(func(x *Type) bool { return !x.importable() })
}

// docSchema renders the type as a JSON Schema (or OpenAPI schema) object.
func (t *Type) docSchema(c *Ctx, oapi bool) map[string]any {
	m := map[string]any{}
	switch t.K {
	case KString:
		m["type"] = "string"
	case KRegex:
		m["type"], m["pattern"] = "string", t.Re
	case KEnum:
		var l []any
		for _, e := range t.Enum {
			l = append(l, e)
		}
		m["enum"] = l
		m["type"] = "string"
	case KBool:
		m["type"] = "boolean"
	case KInt:
		m["type"] = "integer"
		lo, hi := t.rng()
		if lo > -1<<62 {
			m["minimum"] = lo
		}
		if hi < 1<<62 {
			m["maximum"] = hi
		}
	case KFloat:
		m["type"] = "number"
	case KConst:
		m["enum"] = []any{t.Const}
		switch t.Const.(type) {
		case string:
			m["type"] = "string"
		case bool:
			m["type"] = "boolean"
		default:
			m["type"] = "integer"
		}
	case KList:
		m["type"], m["items"] = "array", t.Elem.docSchema(c, oapi)
	case KStruct:
		m["type"] = "object"
		ps := map[string]any{}
		var req []any
		for _, f := range t.Fields {
			ps[f.Name] = f.T.docSchema(c, oapi)
			if !f.Opt {
				req = append(req, f.Name)
			}
		}
		m["properties"] = ps
		if len(req) > 0 {
			m["required"] = req
		}
		if !oapi && !t.Open {
			m["additionalProperties"] = false
		}
	}
	if c.Intn(6) == 0 {
		m["description"] = "says \"something\" about it\nin two lines"
	}
	return m
}

func (c *Ctx) cliInit() {
	rt := newRT()
	root := scratch()
	name := pick(c.Rand, []string{"thing", "myLineage", "p", "x1", "kebab-case", "with space", ""})
	pkg := pick(c.Rand, []string{"", "", "other", "bad-pkg"})
	nopkg := c.Intn(4) == 0
	op := pick(c.Rand, []string{"empty", "jsonschema", "jsonschema", "openapi", "openapi"})
	args := []string{"lineage", "init", op}
	if name != "" {
		args = append(args, pick(c.Rand, []string{"-n", "--name"}), name)
	}
	if pkg != "" {
		args = append(args, "--package-name", pkg)
	}
	if nopkg {
		args = append(args, "--no-package")
	}
	wantPkg := pkg
	if pkg == "" && !nopkg {
		wantPkg = name
	}
	bad := name == "" || nopkg && pkg != "" || !nopkg && !identRE.MatchString(wantPkg)
	g := fullCfg()
	g.fancy = c.Intn(3) == 0
	var t *Type
	for t == nil || !t.importable() {
		t = g.strct(c.Rand, 2, 1+c.Intn(4))
		t.noDefaults()
		t.closeAll()
	}
	if op == "empty" {
		t = &Type{K: KStruct}
	}
	var stdin []byte
	txt := ""
	root2 := filepath.Join(root, "w")
	must(os.MkdirAll(root2, 0o755))
	if op != "empty" {
		doc := t.docSchema(c, op == "openapi")
		if op == "openapi" {
			doc = map[string]any{
				"openapi": "3.0.0", "info": map[string]any{"title": "T", "version": "0.0"}, "paths": map[string]any{},
				"components": map[string]any{"schemas": map[string]any{
					"Main":  doc,
					"Other": map[string]any{"type": "object", "properties": map[string]any{"q": map[string]any{"type": "string"}}},
				}},
			}
			sub := "#Main"
			if f := pickField(c.Rand, t, func(f *Field) bool { return !f.Opt && f.T.K == KStruct && !f.T.Null }); f != nil && c.Intn(2) == 0 {
				sub += cueSel(f.Name)
				t = f.T
				c.count("init-nested-subpath")
			}
			if c.Intn(10) == 0 {
				sub = "#Absent"
				bad = true
			}
			args = append(args, "--src-subpath", sub)
		} else {
			doc["$schema"] = "http://json-schema.org/draft-07/schema#"
		}
		ext := ".json"
		txt = jsonText(doc, c.Rand)
		if op == "openapi" && c.Intn(3) == 0 && !yamlHostile(doc) {
			txt, ext = yamlText(doc), pick(c.Rand, []string{".yaml", ".yml"})
		}
		if c.Intn(10) == 0 {
			bad = true
			txt = pick(c.Rand, []string{"{\"type\": ", "{", "[1, 2]", "\"just text\""})
		}
		switch {
		case c.Intn(3) == 0:
			stdin = []byte(txt)
		case c.Intn(15) == 0:
			bad = true
			args = append(args, filepath.Join(root, "absent"+ext))
		default:
			f := filepath.Join(root2, "doc"+ext)
			write(f, txt)
			if c.Intn(2) == 0 {
				f = "doc" + ext
			}
			args = append(args, f)
		}
	}
	c.note("document: %s", txt)
	before := snapshot(root)
	r := c.cli(root2, stdin, args...)
	c.eval(fmt.Sprintf("init:%s", op))
	c.distinct(strings.Join(args, " "), txt)
	if ch := changed(before, snapshot(root)); len(ch) > 0 {
		c.fail("init-files", "%s: files were touched: %v", r, ch)
	}
	if bad {
		c.eval("init-refused")
		if r.code != 1 || r.out != "" || strings.TrimSpace(r.err) == "" {
			c.fail("init-accepts", "%s: want a refusal", r)
		}
		return
	}
	if r.code != 0 {
		c.fail("init-refuses", "%s\n%s", r, txt)
		return
	}
	src := r.out
	if has := strings.HasPrefix(src, "package "); has == nopkg || has && !strings.HasPrefix(src, "package "+wantPkg+"\n") {
		c.fail("init-package", "%s: want package %q", r, wantPkg)
		return
	}
	if nopkg {
		src = "package p\n" + src
	} else {
		src = strings.Replace(src, "package "+wantPkg+"\n", "package p\n", 1)
	}
	lv, err := loadLin(rt, map[string]string{"a.cue": src})
	if err != nil {
		c.fail("init-load", "%s: the new lineage does not load: %s", r, err)
		return
	}
	lin, err := thema.BindLineage(lv, rt)
	if err != nil {
		c.fail("init-bind", "%s: the new lineage does not bind: %s", r, err)
		return
	}
	if lin.Name() != name || len(lin.All()) != 1 || lin.First().Version() != thema.SV(0, 0) {
		c.fail("init-lineage", "%s: the new lineage is %s %v", r, lin.Name(), lin.All())
		return
	}
	for k := 0; k < 5; k++ {
		d := t.gen(c.Rand)
		// constants may be left out of data for the model's type, but are required
		// by the document
		d = t.hydrate(d)
		c.eval("instance")
		if _, err := lin.First().Validate(decode(rt, d)); err != nil {
			c.fail("init-refuses-data", "%s: the new lineage refuses %s: %s", r, jsonText(d, nil), oneLine(err))
		}
		nd, ft, ok := t.corrupt(c.Rand, d)
		if !ok || t.ambiguous(nd) || op == "openapi" && ft.Class == "excess" {
			continue
		}
		c.eval("fault:" + ft.Class)
		if _, err := lin.First().Validate(decode(rt, nd)); err == nil {
			c.fail("init-admits-data", "%s: the new lineage admits %s with fault %s", r, jsonText(nd, nil), ft)
		}
	}
}

// noDefaults removes defaults at every depth. All numbers are alike to documents.
func (t *Type) noDefaults() {
	t.HasDef, t.Def = false, nil
	if t.K == KFloat {
		t.Num = "number"
	}
	for _, f := range t.Fields {
		f.T.noDefaults()
	}
	if t.Elem != nil {
		t.Elem.noDefaults()
	}
	for _, a := range t.Alts {
		a.noDefaults()
	}
}

func (t *Type) closeAll() {
	t.Open = false
	for _, f := range t.Fields {
		f.T.closeAll()
	}
	if t.Elem != nil {
		t.Elem.closeAll()
	}
	for _, a := range t.Alts {
		a.closeAll()
	}
}

func (c *Ctx) cliFix() {
	ls := c.genLegacy()
	if ls == nil {
		return
	}
	root := scratch()
	dir := filepath.Join(root, pick(c.Rand, []string{"w", "w/sub"}))
	mod := c.Intn(2) == 0
	if mod {
		write(filepath.Join(root, "w/cue.mod/module.cue"), "module: \"example.com/p\"\n")
	}
	for n, s := range ls.files {
		write(filepath.Join(dir, n), s)
	}
	cwd := pick(c.Rand, []string{root, dir})
	target := dir
	if c.Intn(2) == 0 {
		target = filepath.Join(dir, "legacy.cue")
	}
	if c.Intn(2) == 0 {
		rel, err := filepath.Rel(cwd, target)
		must(err)
		target = rel
	}
	args := []string{"lineage", "fix", "-l", target}
	if ls.path != "" {
		args = append(args, "-p", ls.path)
	}
	bad := c.Intn(12) == 0
	if bad {
		args = []string{"lineage", "fix", "-l", target, "-p", "no.such"}
	}
	before := snapshot(root)
	r := c.cli(cwd, nil, args...)
	after := snapshot(root)
	c.eval(fmt.Sprintf("fix:module=%v", mod))
	c.distinct(ls.files["legacy.cue"], args)
	ch := changed(before, after)
	if bad {
		if r.code != 1 || strings.TrimSpace(r.err) == "" {
			c.fail("fix-accepts", "%s: want a refusal", r)
		}
		if len(ch) > 0 {
			c.fail("fix-files", "%s: touched %v", r, ch)
		}
		return
	}
	if r.code != 0 {
		c.fail("fix-refuses", "%s", r)
		return
	}
	rel, _ := filepath.Rel(root, filepath.Join(dir, "legacy.cue"))
	if fmt.Sprint(ch) != "[changed "+rel+"]" {
		c.fail("fix-files", "%s: touched %v, want %s", r, ch, rel)
		return
	}
	c.verifyRewritten(newRT(), ls, []byte(after[rel]))
}
