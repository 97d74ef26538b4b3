package main

import (
	"fmt"
	"io/fs"
	"strings"
	"testing/fstest"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	"cuelang.org/go/cue/ast/astutil"
	"cuelang.org/go/cue/format"
	"cuelang.org/go/cue/parser"
	"github.com/grafana/thema"
	tcue "github.com/grafana/thema/encoding/cue"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Check{ID: "P23", Quick: 520, Thorough: 5000,
		Rule: "(a) a lineage made from a random schema value is written out, loaded and bound, and must have that one schema, name and package; (b) random lineages written in the legacy form, at the root or below a path, unified with thema's definition or not, among other declarations and files, are rewritten; the result, with the announced missing lenses filled in, must bind and validate and translate as the model of the lineage says; distinct by schema or lineage, form and data",
		Run:  runP23})
}

// legacy renders the lineage's fields in the old form.
func (l *Lin) legacy() string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %s\nseqs: [\n", cueLit(l.Name))
	for i := 0; i < len(l.Schs); {
		maj := l.Schs[i].V[0]
		b.WriteString("{\nschemas: [\n")
		first, last := i, i
		for ; i < len(l.Schs) && l.Schs[i].V[0] == maj; i++ {
			b.WriteString(l.Schs[i].T.cue() + ",\n")
			last = i
		}
		_ = last
		b.WriteString("]\n")
		if maj > 0 {
			prev, cur := l.Schs[first-1].V, l.Schs[first].V
			for _, d := range []struct {
				n        string
				from, to Ver
			}{{"forward", prev, cur}, {"reverse", cur, prev}} {
				x := l.lens(d.from, d.to)
				fmt.Fprintf(&b, "lens: %s: {\nto: seqs[%d].schemas[%d]\nfrom: seqs[%d].schemas[%d]\nrel: {\n", d.n, d.to[0], d.to[1], d.from[0], d.from[1])
				for _, a := range x.As {
					b.WriteString(a.cueIn("from") + "\n")
				}
				b.WriteString("}\nlacunas: [")
				for _, lc := range x.Lac {
					b.WriteString(lc.cueIn("from") + ",\n")
				}
				b.WriteString("]\ntranslated: to & rel\n}\n")
			}
		}
		b.WriteString("},\n")
	}
	b.WriteString("]\n")
	return b.String()
}

// loadLin loads the files of a package "p" that may import thema.
func loadLin(rt *thema.Runtime, files map[string]string) (cue.Value, error) {
	m := fstest.MapFS{"cue.mod/module.cue": {Data: []byte(`module: "example.com/p"`)}}
	for n, s := range files {
		m[n] = &fstest.MapFile{Data: []byte(s)}
	}
	inst, err := load.InstanceWithThema(fs.FS(m), ".")
	if err != nil {
		return cue.Value{}, err
	}
	return rt.Context().BuildInstance(inst), nil
}

func runP23(c *Ctx) {
	if c.Case == 0 {
		c.probeLegacy(newRT())
	}
	if c.Intn(2) == 0 {
		c.newLineage()
	} else {
		c.legacyLineage()
	}
}

func (c *Ctx) newLineage() {
	rt := newRT()
	g := fullCfg()
	t := g.strct(c.Rand, g.depth, 1+c.Intn(5))
	src := t.cue()
	if c.Intn(3) == 0 {
		src, _ = t.withDefs("")
	}
	c.note("schema: %s", src)
	v := rt.Context().CompileString(src)
	must(v.Err())
	name := pick(c.Rand, []string{"thing", "myLineage", "p", "with space", "kebab-case", "x1", "ünï"})
	pkg := pick(c.Rand, []string{"p", "p", "", "other"})
	f, err := tcue.NewLineage(v, name, pkg)
	c.eval("new")
	c.distinct(src, name, pkg)
	if err != nil {
		c.fail("new", "no lineage from %s: %s", src, err)
		return
	}
	if f.PackageName() != pkg {
		c.fail("package", "package %q, want %q", f.PackageName(), pkg)
	}
	b, err := format.Node(f, format.Simplify())
	must(err)
	txt := string(b)
	c.note("new lineage: %s", txt)
	switch pkg {
	case "":
		txt = "package p\n" + txt
	case "other":
		txt = strings.Replace(txt, "package other", "package p", 1)
	}
	lv, err := loadLin(rt, map[string]string{"a.cue": txt})
	if err != nil {
		c.fail("load", "the new lineage does not load: %s", err)
		return
	}
	lin, err := thema.BindLineage(lv, rt)
	if err != nil {
		c.fail("bind", "the new lineage does not bind: %s", err)
		return
	}
	c.eval("bound")
	if lin.Name() != name || len(lin.All()) != 1 || lin.First().Version() != thema.SV(0, 0) {
		c.fail("lineage", "the new lineage is %s %v", lin.Name(), lin.All())
		return
	}
	for k := 0; k < 6; k++ {
		d := t.gen(c.Rand)
		c.eval("instance")
		if _, err := lin.First().Validate(decode(rt, d)); err != nil {
			c.fail("refuses", "the new lineage refuses %s: %s", jsonText(d, nil), oneLine(err))
		}
		nd, ft, ok := t.corrupt(c.Rand, d)
		if !ok || t.ambiguous(nd) {
			continue
		}
		c.eval("fault:" + ft.Class)
		if _, err := lin.First().Validate(decode(rt, nd)); err == nil {
			c.fail("admits", "the new lineage admits %s with fault %s", jsonText(nd, nil), ft)
		}
	}
}

// legacySrc is a legacy lineage laid out in a package.
type legacySrc struct {
	l     *Lin
	path  string
	form  int
	files map[string]string
	extra bool
}

func (c *Ctx) genLegacy() *legacySrc {
	lc := stdLin()
	lc.min, lc.max, lc.maps = 1, 5, false
	lc.lacunas = c.Intn(2) == 0
	l := genLin(c.Rand, lc)
	for _, s := range l.Schs {
		if s.T.field("input") != nil || s.T.field("result") != nil {
			c.count("skipped") // known finding
			return nil
		}
	}
	body := l.legacy()
	var src, path string
	form := c.Intn(6)
	imp := "package p\n\nimport \"github.com/grafana/thema\"\n\n"
	switch form {
	case 0:
		src = "package p\n\n" + body
	case 1:
		src = imp + "thema.#Lineage\n" + body
	case 2:
		path, src = "lin", imp+"lin: thema.#Lineage & {\n"+body+"}\n"
	case 3:
		path, src = "lin", imp+"lin: thema.#Lineage\nlin: {\n"+body+"}\n"
	case 4:
		path, src = "lin", "package p\n\nlin: {\n"+body+"}\n"
	case 5:
		path, src = "some.where", imp+"some: where: thema.#Lineage & {\n"+body+"}\n"
	}
	extra := path != "" && c.Intn(2) == 0
	if extra {
		src += "// kept\nother: {seqs: \"mine\", n: 12}\n"
	}
	c.note("legacy (%s) at %q:\n%s", l.shape(), path, src)
	files := map[string]string{"legacy.cue": src}
	if path != "" && c.Intn(3) == 0 {
		files["a.cue"] = "package p\n\nbefore: string\n"
		files["z.cue"] = "package p\n\nafter: string\n"
	}
	return &legacySrc{l, path, form, files, extra}
}

func (c *Ctx) legacyLineage() {
	rt := newRT()
	ls := c.genLegacy()
	if ls == nil {
		return
	}
	v, err := loadLin(rt, ls.files)
	if err != nil {
		panic(err)
	}
	if c.Intn(4) == 0 {
		c.notLegacy(rt, v)
	}
	f, err := tcue.RewriteLegacyLineage(v, cue.ParsePath(ls.path))
	c.eval(fmt.Sprintf("rewrite:form%d", ls.form))
	c.distinct(ls.files["legacy.cue"])
	if err != nil {
		c.fail("rewrite", "form %d: %s", ls.form, err)
		return
	}
	if !strings.HasSuffix(f.Filename, "legacy.cue") {
		c.fail("file", "the rewritten file is %s", f.Filename)
	}
	b, err := format.Node(f, format.Simplify())
	must(err)
	c.verifyRewritten(rt, ls, b)
}

// verifyRewritten compares the text a legacy lineage was rewritten to with the
// model.
func (c *Ctx) verifyRewritten(rt *thema.Runtime, ls *legacySrc, b []byte) {
	l, files, path, extra := ls.l, ls.files, ls.path, ls.extra
	c.note("rewritten: %s", b)
	// reparse, fill in the lenses said to be missing
	nf, err := parser.ParseFile("new.cue", b, parser.ParseComments)
	if err != nil {
		c.fail("rewrite", "the result does not parse: %s", err)
		return
	}
	missing := map[[2]Ver]bool{}
	astutil.Apply(nf, func(cu astutil.Cursor) bool {
		st, ok := cu.Node().(*ast.StructLit)
		if !ok {
			return true
		}
		var from, to *Ver
		var res *ast.Field
		for _, e := range st.Elts {
			fd, ok := e.(*ast.Field)
			if !ok {
				continue
			}
			n, _, _ := ast.LabelName(fd.Label)
			switch n {
			case "from", "to":
				if ll, ok := fd.Value.(*ast.ListLit); ok && len(ll.Elts) == 2 {
					var x Ver
					for i, e := range ll.Elts {
						if bl, ok := e.(*ast.BasicLit); ok {
							fmt.Sscan(bl.Value, &x[i])
						}
					}
					if n == "from" {
						from = &x
					} else {
						to = &x
					}
				}
			case "result":
				res = fd
			}
		}
		if from == nil || to == nil || res == nil {
			return true
		}
		if sl, ok := res.Value.(*ast.StructLit); ok && len(sl.Elts) == 1 {
			if em, ok := sl.Elts[0].(*ast.EmbedDecl); ok {
				if _, ok := em.Expr.(*ast.BottomLit); ok {
					k := [2]Ver{*from, *to}
					missing[k] = true
					x := l.lens(*from, *to)
					if x == nil {
						c.fail("lenses", "the result has a lens %s -> %s", from, to)
						return false
					}
					var lb strings.Builder
					for _, a := range x.As {
						lb.WriteString(a.cue() + "\n")
					}
					x.Lac = nil
					e, err := parser.ParseExpr("lens", "{\n"+lb.String()+"}")
					must(err)
					res.Value = e
				}
			}
		}
		return false
	}, nil)
	for _, x := range l.Lenses {
		minor := x.From[0] == x.To[0]
		c.eval("lens")
		if minor != missing[[2]Ver{x.From, x.To}] {
			c.fail("lenses", "the lens %s -> %s is marked missing: %v, want %v", x.From, x.To, missing[[2]Ver{x.From, x.To}], minor)
		}
	}
	b, err = format.Node(nf, format.Simplify())
	must(err)
	files["legacy.cue"] = string(b)
	if extra && !(strings.Contains(string(b), "other: {") && strings.Contains(string(b), `"mine"`) && strings.Contains(string(b), "// kept")) {
		c.fail("kept", "declarations next to the lineage got lost")
	}
	nv, err := loadLin(rt, files)
	if err != nil {
		c.fail("load", "the result does not load: %s", err)
		return
	}
	lin, err := thema.BindLineage(nv.LookupPath(cue.ParsePath(path)), rt)
	if err != nil {
		c.fail("bind", "the rewritten lineage does not bind: %s", err)
		return
	}
	if lin.Name() != l.Name || fmt.Sprint(allVers(lin)) != fmt.Sprint(l.vers()) {
		c.fail("lineage", "the result is %s %v, want %s", lin.Name(), allVers(lin), l.shape())
		return
	}
	for i, s := range l.Schs {
		d := s.T.gen(c.Rand)
		c.eval("validate")
		inst, err := lin.All()[i].Validate(decode(rt, d))
		if err != nil {
			c.fail("validate", "valid data %s rejected by %s: %s", jsonText(d, nil), s.V, oneLine(err))
			continue
		}
		if nd, ft, ok := s.T.corrupt(c.Rand, d); ok && !s.T.ambiguous(nd) {
			c.eval("validate-fault")
			if _, err := lin.All()[i].Validate(decode(rt, nd)); err == nil {
				c.fail("validate", "%s admits %s with fault %s", s.V, jsonText(nd, nil), ft)
			}
		}
		for _, t := range l.Schs {
			c.checkTranslate(l, inst, d, s.V, t.V)
		}
	}
}

func (l *Lin) vers() (vs []Ver) {
	for _, s := range l.Schs {
		vs = append(vs, s.V)
	}
	return
}

// probeLegacy: a lens that sets a field called input.
func (c *Ctx) probeLegacy(rt *thema.Runtime) {
	v, err := loadLin(rt, map[string]string{"legacy.cue": `package p
name: "probe"
seqs: [
	{schemas: [{input: string}]},
	{
		schemas: [{input: string, b: int32}]
		lens: forward: {to: seqs[1].schemas[0], from: seqs[0].schemas[0], rel: {input: from.input, b: 1}, lacunas: [], translated: to & rel}
		lens: reverse: {to: seqs[0].schemas[0], from: seqs[1].schemas[0], rel: {input: from.input}, lacunas: [], translated: to & rel}
	},
]
`})
	must(err)
	f, err := tcue.RewriteLegacyLineage(v, cue.Path{})
	must(err)
	b, err := format.Node(f, format.Simplify())
	must(err)
	nv, err := loadLin(rt, map[string]string{"legacy.cue": string(b)})
	must(err)
	lin, err := thema.BindLineage(nv, rt)
	if err == nil {
		var inst *thema.Instance
		if inst, err = lin.First().Validate(decode(rt, map[string]any{"input": "x"})); err == nil {
			_, _, err = inst.Translate(thema.SV(1, 0))
		}
	}
	c.eval("probe")
	if err != nil {
		c.fail("finding:input-field", "%s", oneLine(err))
	}
}

// notLegacy: what is not a lineage in the legacy form is refused.
func (c *Ctx) notLegacy(rt *thema.Runtime, legacy cue.Value) {
	refuse := func(what string, v cue.Value, path string) {
		f, err := tcue.RewriteLegacyLineage(v, cue.ParsePath(path))
		c.eval("refuse:" + what)
		if err == nil {
			c.fail("refuse:"+what, "rewriting %s gives a file: %v", what, f != nil)
		}
	}
	refuse("an absent path", legacy, "nowhere.at.all")
	l := genLin(c.Rand, stdLin())
	v, err := loadLin(rt, map[string]string{"lin.cue": "package p\n\n" + l.body()})
	must(err)
	refuse("a lineage in the current form", v, "")
}
