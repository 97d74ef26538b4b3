package main

import (
	"encoding/json"
	stderrors "errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
)

func init() {
	register(&Check{ID: "P05", Quick: 6000, Thorough: 30000,
		Rule: "random schemas over the whole modelled type language in lineages of 1-3 versions; each is fed valid data, data with one fault injected, data of the other schemas and arbitrary JSON, through JSON, YAML and Go-value decoding; the model decides membership; non-trivial: all data but the empty object; distinct by schema text and data",
		Run:  runP05})
	register(&Check{ID: "P06", Quick: 9000, Thorough: 40000,
		Rule: "valid data with exactly one fault (missing, excess, kind, bounds) at a known path; the report must identify schema, path and class, and be an ErrInvalidData; distinct by fault class, path and type at fault",
		Run:  runP06})
	register(&Check{ID: "P07", Quick: 5000, Thorough: 15000,
		Rule: "lineages of 2-6 versions; data of every version, faulty and arbitrary data; the oldest schema admitting it, per the model, must be the one returned, none meaning nil; non-trivial: all; distinct by set of admitting versions and shape",
		Run:  runP07})
}

// ambiguous: the data lacks a discriminator, so the model does not decide.
func (t *Type) ambiguous(v any) bool {
	switch t.K {
	case KStruct:
		if m, ok := v.(map[string]any); ok {
			for _, f := range t.Fields {
				if e, has := m[f.Name]; has && f.T.ambiguous(e) {
					return true
				}
			}
		}
	case KMap:
		if m, ok := v.(map[string]any); ok {
			for _, e := range m {
				if t.Elem.ambiguous(e) {
					return true
				}
			}
		}
	case KList:
		if l, ok := v.([]any); ok {
			for _, e := range l {
				if t.Elem.ambiguous(e) {
					return true
				}
			}
		}
	case KTuple:
		if l, ok := v.([]any); ok && len(l) == len(t.Alts) {
			for i, e := range l {
				if t.Alts[i].ambiguous(e) {
					return true
				}
			}
		}
	case KDisc:
		if m, ok := v.(map[string]any); ok {
			if _, has := m["kind"]; !has {
				return true
			}
			if a := t.branch(v); a != nil {
				return a.ambiguous(v)
			}
		}
	}
	return false
}

// decodeAs turns data into a CUE value in one of the ways callers do.
func decodeAs(c *Ctx, rt *thema.Runtime, data any) (cue.Value, string) {
	txt := jsonText(data, c.Rand)
	switch c.Intn(5) {
	case 0:
		v, err := yamlC.Decode(rt.Context(), []byte(yamlText(data)))
		must(err)
		return v, "yaml"
	case 1:
		return rt.Context().Encode(goData(data)), "go"
	case 2:
		return rt.Context().CompileString(txt, cue.Filename("in")), "cue"
	}
	v, err := jsonC.Decode(rt.Context(), []byte(txt))
	must(err)
	return v, "json"
}

// goData makes Go values that cue.Context.Encode takes as the same data.
func goData(v any) any {
	switch x := v.(type) {
	case map[string]any:
		n := map[string]any{}
		for k, e := range x {
			n[k] = goData(e)
		}
		return n
	case []any:
		n := []any{}
		for _, e := range x {
			n = append(n, goData(e))
		}
		return n
	case float64: // encoded, 2.0 would become an integer
		return json.RawMessage(jsonText(x, nil))
	}
	return v
}

// yamlText renders data as YAML, in flow style with quoted scalars.
func yamlText(v any) string {
	if m, ok := v.(map[string]any); ok && len(m) > 0 {
		var b strings.Builder
		for _, k := range keys(m) {
			fmt.Fprintf(&b, "%s: %s\n", quoteJSON(k), jsonText(m[k], nil))
		}
		return b.String()
	}
	return jsonText(v, nil) + "\n"
}

func hasFloat(v any) bool {
	switch x := v.(type) {
	case float64:
		return true
	case map[string]any:
		for _, e := range x {
			if hasFloat(e) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if hasFloat(e) {
				return true
			}
		}
	}
	return false
}

func runP05(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.any, lc.openness, lc.anyMinor = true, true, true
	lc.min, lc.max = 1, 3
	lc.join = c.Intn(8) == 0
	var opts []thema.BindOption
	if c.Intn(3) == 0 { // CUE's compatibility check cannot handle maps
		lc.maps = true
		opts = append(opts, thema.SkipBuggyChecks())
	}
	l := genLin(c.Rand, lc)
	if c.Intn(2) == 0 {
		l.Lenses = nil
	}
	lin := c.mustBind(rt, l, opts...)
	if lin == nil {
		return
	}
	try := func(i int, d any, what string) {
		t := l.Schs[i].T
		if t.ambiguous(d) {
			return
		}
		s := lin.All()[i]
		want := t.valid(d)
		v, via := decodeAs(c, rt, d)
		inst, err := s.Validate(v)
		c.eval(fmt.Sprintf("%s:valid=%v", what, want))
		c.count("via:" + via)
		c.distinct(t.cue(), jsonText(d, nil))
		c.sample("schema %s %s data %s: valid=%v", s.Version(), t.cue(), jsonText(d, nil), want)
		if (err == nil) != want {
			c.fail("membership", "schema %s\n%s\n%s data (%s) %s: the model says valid=%v, Validate: %v", s.Version(), t.cue(), what, via, jsonText(d, nil), want, err)
			return
		}
		if err != nil {
			if inst != nil {
				c.fail("half", "an instance is returned along with an error")
			}
			if !is(err, errInvalidData) {
				c.fail("class", "data %s against %s: error is not ErrInvalidData: %s", jsonText(d, nil), s.Version(), oneLine(err))
			}
			return
		}
		if inst == nil || inst.Schema() == nil || inst.Schema().Version() != s.Version() || inst.Schema().Lineage().Name() != l.Name {
			c.fail("instance", "the instance does not belong to the schema that validated it")
			return
		}
		got, err := dataOf(inst)
		if err != nil || !dataEq(got, d) {
			c.fail("instance", "instance of data %s contains %s %v", jsonText(d, nil), jsonText(got, nil), err)
		}
	}
	for i := range l.Schs {
		t := l.Schs[i].T
		for k := 0; k < 6; k++ {
			d := t.gen(c.Rand)
			try(i, d, "own")
			if nd, f, ok := t.corrupt(c.Rand, d); ok {
				try(i, nd, "fault-"+f.Class)
			}
			if len(l.Schs) > 1 {
				try(i, pick(c.Rand, l.Schs).T.gen(c.Rand), "sibling")
			}
		}
		try(i, genAny(c.Rand, 3), "arbitrary")
		m := map[string]any{}
		for _, f := range t.Fields {
			if c.Intn(3) > 0 {
				m[f.Name] = genAny(c.Rand, 1)
			} else {
				m[f.Name] = f.T.gen(c.Rand)
			}
		}
		try(i, m, "arbitrary")
	}
}

var coordRE = regexp.MustCompile(`(?m)^<([^>]*)@v(\d+)\.(\d+)>\.(.*): validation failed, data is not an instance:$`)

func runP06(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.anyMinor, lc.openness, lc.any = true, true, true
	lc.min, lc.max = 1, 3
	lc.join = c.Intn(8) == 0
	if c.Intn(3) == 0 { // deep, and full of the labels lineages are made of
		lc.depth, lc.reserved, lc.max = 6, true, 2
		c.count("reserved-labels")
	}
	l := genLin(c.Rand, lc)
	l.Lenses = nil
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	for i, s := range l.Schs {
		multiFault(c, rt, l, lin, i)
		for k := 0; k < 8; k++ {
			d := s.T.gen(c.Rand)
			nd, f, ok := s.T.corrupt(c.Rand, d)
			if !ok || s.T.ambiguous(nd) {
				continue
			}
			sch := lin.All()[i]
			if c.Intn(2) == 0 {
				sch = thema.SchemaP(lin, sv(s.V))
			}
			_, err := sch.Validate(decode(rt, nd))
			if err == nil {
				c.fail("membership", "faulty (%s) data %s is accepted by %s", f, jsonText(nd, nil), s.T.cue())
				continue
			}
			c.eval("class:" + f.Class)
			bad := func(key, format string, a ...any) {
				c.fail(key, "schema %s\n%s\ndata %s with fault %s: %s\nreport: %s", s.V, s.T.cue(), jsonText(nd, nil), f, fmt.Sprintf(format, a...), err)
			}
			if !is(err, errInvalidData) || !stderrors.Is(err, errInvalidData) {
				bad("class", "error is not ErrInvalidData")
			}
			msg := err.Error()
			if strings.TrimSpace(msg) == "" {
				bad("empty", "the report is empty")
				continue
			}
			ms := coordRE.FindAllStringSubmatch(msg, -1)
			for _, m := range ms {
				if m[1] != l.Name || m[2]+"."+m[3] != s.V.String() {
					bad("coords", "the report names %s@v%s.%s", m[1], m[2], m[3])
				}
			}
			if f.InDis { // reports of failed disjunctions vary with CUE
				c.count("in-disjunction")
				continue
			}
			if len(f.Path) == 0 {
				continue // the root is not a field
			}
			c.distinct(f, s.T.cue())
			c.sample("schema %s data %s fault %s report %q", s.T.cue(), jsonText(nd, nil), f, msg)
			want := strings.Join(f.Path, ".")
			found := false
			for _, m := range ms {
				if barePath(m[4]) == barePath(want) {
					found = true
				} else {
					bad("path", "the report blames %q, want %q", m[4], want)
				}
			}
			if !found {
				bad("path", "the report does not name %q", want)
				continue
			}
			var text string
			switch f.Class {
			case "missing":
				text = "absent from data"
			case "excess":
				text = "does not specify field"
			case "kind", "bounds":
				text = "but data contained `" + strings.TrimSuffix(dataShown(nd, f.Path), ".0")
			}
			if !strings.Contains(msg, text) {
				bad("detail", "the report does not say %q", text)
			}
			reportSides(c, bad, s.T, nd, f, msg)
			for cl, t := range map[string]string{"missing": "absent from data", "excess": "does not specify field", "kind": "data contained"} {
				if cl != f.Class && !(cl == "kind" && f.Class == "bounds") && strings.Contains(msg, t) {
					bad("detail", "the report says %q", t)
				}
			}
		}
	}
}

var posRE = regexp.MustCompile(`^\t\t(.*):(\d+):(\d+)$`)

// reportSides: positions are listed under the side they belong to, those in the data
// point at the fault, and the schema's side quotes the schema's type.
func reportSides(c *Ctx, bad func(key, format string, a ...any), t *Type, d any, f Fault, msg string) {
	txt := jsonText(d, nil)
	side, found, any := "", false, false
	for _, ln := range strings.Split(msg, "\n") {
		switch {
		case strings.HasPrefix(ln, "\tschema "):
			side = "schema"
		case strings.HasPrefix(ln, "\tbut "):
			side = "data"
		}
		m := posRE.FindStringSubmatch(ln)
		if m == nil {
			continue
		}
		if isCue := strings.HasSuffix(m[1], ".cue"); isCue != (side == "schema") {
			bad("side", "the position %s is listed on the side of the %s", strings.TrimSpace(ln), side)
		}
		c.count("position-" + side)
		if side == "data" {
			any = true
			col, _ := strconv.Atoi(m[3])
			if m[2] != "1" || col < 1 || col > len(txt) {
				bad("position", "there is no position %s in the data", strings.TrimSpace(ln))
				continue
			}
			if f.Class == "kind" || f.Class == "bounds" {
				if v := at(d, f.Path); strings.HasPrefix(txt[col-1:], jsonText(v, nil)) {
					found = true
				}
			} else {
				found = true
			}
		}
	}
	if any && !found {
		bad("position", "no position given is that of the fault")
	}
	if f.Class != "kind" {
		return
	}
	e := t
	for _, k := range f.Path {
		switch e.K {
		case KStruct:
			fl := e.field(k)
			if fl == nil {
				return
			}
			e = fl.T
		case KList, KMap:
			e = e.Elem
		default:
			return
		}
	}
	want := ""
	switch {
	case e.HasDef || e.Null:
		return
	case e.K == KString:
		want = "string"
	case e.K == KBool:
		want = "bool"
	case e.K == KInt && e.Lo == nil && e.Hi == nil:
		want = e.Num
	default:
		return
	}
	c.count("schema-side:" + want)
	if !strings.Contains(msg, "schema expected `"+want+"`") {
		bad("schema-side", "the report does not say that the schema expects %s", want)
	}
}

// multiFault: every one of several independent faults is reported.
func multiFault(c *Ctx, rt *thema.Runtime, l *Lin, lin thema.Lineage, i int) {
	s := l.Schs[i]
	for k := 0; k < 12; k++ {
		d := s.T.gen(c.Rand)
		var fs []Fault
		for j := 0; j < 8 && len(fs) < 3; j++ {
			nd, f, ok := s.T.corrupt(c.Rand, d)
			if !ok || f.InDis || len(f.Path) == 0 {
				continue
			}
			good := true
			for _, o := range fs {
				// missing fields are only reported when nothing else is wrong
				if (o.Class == "missing") != (f.Class == "missing") || prefix(o.Path, f.Path) || prefix(f.Path, o.Path) {
					good = false
				}
			}
			if good {
				d = nd
				fs = append(fs, f)
			}
		}
		if len(fs) < 2 || s.T.ambiguous(d) {
			continue
		}
		_, err := lin.All()[i].Validate(decode(rt, d))
		if err == nil {
			c.fail("membership", "faulty (%s) data %s is accepted by %s", fs, jsonText(d, nil), s.T.cue())
			continue
		}
		c.eval(fmt.Sprintf("several-faults:%d", len(fs)))
		got := map[string]bool{}
		for _, m := range coordRE.FindAllStringSubmatch(err.Error(), -1) {
			got[barePath(m[4])] = true
		}
		for _, f := range fs {
			if !got[barePath(strings.Join(f.Path, "."))] {
				c.fail("unreported", "schema %s\n%s\ndata %s with faults %s: %s is not reported\nreport: %s", s.V, s.T.cue(), jsonText(d, nil), fs, f, err)
			}
		}
	}
}

func prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// barePath drops the quotes that CUE puts around labels that are not identifiers.
func barePath(p string) string {
	return strings.NewReplacer("\"", "", "\\", "").Replace(p)
}

// dataShown: how the value at a path begins, as CUE prints it.
func dataShown(d any, path []string) string {
	for _, p := range path {
		switch x := d.(type) {
		case map[string]any:
			d = x[p]
		case []any:
			var i int
			fmt.Sscan(p, &i)
			d = x[i]
		}
	}
	switch x := d.(type) {
	case map[string]any:
		return "{"
	case []any:
		return "["
	case string:
		_ = x
		return `"`
	}
	return jsonText(d, nil)
}

func runP07(c *Ctx) {
	rt := newRT()
	lc := stdLin()
	lc.any, lc.anyMinor = true, true
	lc.min, lc.max = 2, 6
	lc.join = c.Intn(8) == 0
	l := genLin(c.Rand, lc)
	l.Lenses = nil
	lin := c.mustBind(rt, l)
	if lin == nil {
		return
	}
	try := func(d any, what string) {
		want := -1
		var adm []string
		for i, s := range l.Schs {
			if s.T.ambiguous(d) {
				return
			}
			if s.T.valid(d) {
				adm = append(adm, s.V.String())
				if want < 0 {
					want = i
				}
			}
		}
		inst := lin.ValidateAny(decode(rt, d))
		c.eval(fmt.Sprintf("%s:admitted-by=%d", what, min(len(adm), 3)))
		c.distinct(l.shape(), adm)
		c.sample("versions %s data %s admitted by %v", l.shape(), jsonText(d, nil), adm)
		if want < 0 {
			if inst != nil {
				c.fail("any", "data %s is valid for no schema, but %s is returned", jsonText(d, nil), inst.Schema().Version())
			}
			return
		}
		if inst == nil {
			c.fail("any", "data %s is valid for %v, but nothing is returned", jsonText(d, nil), adm)
			return
		}
		if mv(inst.Schema().Version()) != l.Schs[want].V {
			c.fail("any", "data %s is valid for %v, but %s is returned, not the oldest", jsonText(d, nil), adm, inst.Schema().Version())
		}
		if got, err := dataOf(inst); err != nil || !dataEq(got, d) {
			c.fail("instance", "instance of data %s contains %s %v", jsonText(d, nil), jsonText(got, nil), err)
		}
	}
	for _, s := range l.Schs {
		for k := 0; k < 4; k++ {
			d := s.T.gen(c.Rand)
			try(d, "own")
			if nd, _, ok := s.T.corrupt(c.Rand, d); ok {
				try(nd, "faulty")
			}
		}
	}
	try(genAny(c.Rand, 2), "arbitrary")
}
