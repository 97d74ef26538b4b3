package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
)

// markerLin builds a lineage with the given number of schemas per major
// version, in which every version has data of its own.
func markerLin(counts []int) *Lin {
	l := &Lin{Name: "nav"}
	for maj, n := range counts {
		for min := 0; min < n; min++ {
			t := &Type{K: KStruct}
			t.Fields = append(t.Fields, &Field{fmt.Sprintf("m%d", maj), false, &Type{K: KString}})
			for k := 1; k <= min; k++ {
				t.Fields = append(t.Fields, &Field{fmt.Sprintf("o%d", k), true, &Type{K: KString}})
			}
			l.Schs = append(l.Schs, &Sch{V: Ver{uint(maj), uint(min)}, T: t})
		}
	}
	return l
}

// markerData is valid for version v, and for later minors of its major only.
func markerData(v Ver) map[string]any {
	d := map[string]any{fmt.Sprintf("m%d", v[0]): "x"}
	if v[1] > 0 {
		d[fmt.Sprintf("o%d", v[1])] = "y"
	}
	return d
}

func genCounts(c *Ctx, maxMaj, maxMin int) []int {
	n := 1 + c.Intn(maxMaj)
	var cs []int
	for i := 0; i < n; i++ {
		cs = append(cs, 1+c.Intn(maxMin))
	}
	return cs
}

func init() {
	register(&Check{ID: "P01", Quick: 4800, Thorough: 20000,
		Rule: "lineages with random numbers of major and minor versions (up to 7x6, all shapes up to 3x3 enumerated first); every version in and around the lineage is looked up, and every link followed, both on the lineage as bound and through typed schemas; non-trivial: more than one schema; distinct by version shape",
		Run: func(c *Ctx) {
			var counts []int
			if c.Case < 39 { // all shapes with up to 3 majors of up to 3 minors
				k := c.Case
				for _, n := range []int{1, 2, 3} {
					sz := 1
					for i := 0; i < n; i++ {
						sz *= 3
					}
					if k < sz {
						for i := 0; i < n; i++ {
							counts = append(counts, 1+k%3)
							k /= 3
						}
						break
					}
					k -= sz
				}
			} else {
				counts = genCounts(c, 7, 6)
			}
			rt := newRT()
			l := markerLin(counts)
			lin := c.mustBind(rt, l)
			if lin == nil {
				return
			}
			if len(l.Schs) > 1 {
				c.distinct(counts)
			}
			c.sample("versions %s", l.shape())
			checkNav(c, rt, l, lin)
		}})

	register(&Check{ID: "P02", Quick: 4000, Thorough: 8000,
		Rule: "random and boundary version pairs and triples (total order, print/parse round trip) and hostile strings (own grammar as oracle); all pairs over {0..3}x{0..3} are enumerated in case 0; non-trivial: the pair differs or the string is not canonical; distinct by pair or string",
		Run:  runP02})
}

func checkNav(c *Ctx, rt *thema.Runtime, l *Lin, lin thema.Lineage) {
	bad := func(f string, a ...any) { c.fail("navigation", f, a...) }
	all := lin.All()
	c.eval("all")
	if len(all) != len(l.Schs) {
		bad("All() has %d schemas, the lineage %d", len(all), len(l.Schs))
		return
	}
	if lin.Name() != l.Name {
		bad("name %q, want %q", lin.Name(), l.Name)
	}
	n := len(l.Schs)
	last := func(maj uint) Ver {
		var v Ver
		for _, s := range l.Schs {
			if s.V[0] == maj {
				v = s.V
			}
		}
		return v
	}
	for i, s := range l.Schs {
		if mv(all[i].Version()) != s.V {
			bad("All()[%d] is %s, want %s", i, all[i].Version(), s.V)
		}
		sch, err := lin.Schema(sv(s.V))
		c.eval("lookup")
		if err != nil {
			bad("Schema(%s): %s", s.V, err)
			continue
		}
		if mv(sch.Version()) != s.V {
			bad("Schema(%s) has version %s", s.V, sch.Version())
		}
		if sch.Lineage().Name() != l.Name {
			bad("Schema(%s).Lineage() is another lineage", s.V)
		}
		succ, pred := sch.Successor(), sch.Predecessor()
		c.eval("links")
		if i == n-1 {
			if succ != nil {
				bad("latest schema %s has successor %s", s.V, succ.Version())
			}
		} else if succ == nil || mv(succ.Version()) != l.Schs[i+1].V {
			bad("successor of %s is %v, want %s", s.V, succ, l.Schs[i+1].V)
		}
		if i == 0 {
			if pred != nil {
				bad("first schema has predecessor %s", pred.Version())
			}
		} else if pred == nil || mv(pred.Version()) != l.Schs[i-1].V {
			bad("predecessor of %s is %v, want %s", s.V, pred, l.Schs[i-1].V)
		}
		lim := sch.LatestInMajor()
		if lim == nil || mv(lim.Version()) != last(s.V[0]) {
			bad("latest in major of %s is %v, want %s", s.V, lim, last(s.V[0]))
		}
		// the schema found is the one of that version, not merely labelled so
		if s.T.field(fmt.Sprintf("m%d", s.V[0])) != nil && s.Op == nil {
			if _, err := sch.Validate(decode(rt, markerData(s.V))); err != nil {
				bad("data of %s is rejected by Schema(%s): %s", s.V, s.V, oneLine(err))
			}
			c.eval("identity")
			for _, o := range l.Schs {
				if o.V[0] != s.V[0] || s.V.less(o.V) {
					if _, err := sch.Validate(decode(rt, markerData(o.V))); err == nil {
						bad("data of %s is accepted by Schema(%s)", o.V, s.V)
					}
					break
				}
			}
		}
	}
	c.eval("ends")
	if mv(lin.First().Version()) != l.Schs[0].V || mv(lin.Latest().Version()) != l.Schs[n-1].V {
		bad("first %s latest %s, want %s %s", lin.First().Version(), lin.Latest().Version(), l.Schs[0].V, l.Schs[n-1].V)
	}
	if mv(thema.LatestVersion(lin)) != l.Schs[n-1].V {
		bad("LatestVersion %s", thema.LatestVersion(lin))
	}
	maxMaj := l.Schs[n-1].V[0]
	for maj := uint(0); maj <= maxMaj+2; maj++ {
		v, err := thema.LatestVersionInSequence(lin, maj)
		c.eval("latest-in-sequence")
		if maj > maxMaj {
			if err == nil {
				bad("LatestVersionInSequence(%d) is %s in %s", maj, v, l.shape())
			} else if !is(err, terrors.ErrVersionNotExist) {
				bad("LatestVersionInSequence(%d): error is not ErrVersionNotExist: %s", maj, err)
			}
			continue
		}
		if err != nil || mv(v) != last(maj) {
			bad("LatestVersionInSequence(%d) is %s %v, want %s", maj, v, err, last(maj))
		}
		// versions that do not exist
		for _, m := range []uint{last(maj)[1] + 1, last(maj)[1] + 2, 1 << 20} {
			for _, w := range []Ver{{maj, m}, {maxMaj + 1, m}, {maxMaj + 7, 0}, {1 << 31, m}} {
				sch, err := lin.Schema(sv(w))
				c.eval("absent-version")
				if err == nil || sch != nil {
					bad("Schema(%s) exists in %s", w, l.shape())
				} else if !is(err, terrors.ErrVersionNotExist) {
					bad("Schema(%s): error is not ErrVersionNotExist: %s", w, err)
				}
			}
		}
	}
	func() {
		defer func() {
			c.eval("schemap")
			if recover() == nil {
				bad("SchemaP of an absent version does not panic")
			}
		}()
		thema.SchemaP(lin, thema.SV(maxMaj+1, 0))
	}()
	// mutating the returned list does not affect the lineage
	all[0] = nil
	if a := lin.All(); a[0] == nil || mv(a[0].Version()) != l.Schs[0].V {
		bad("the list returned by All() aliases the lineage's own")
	}
}

var svRE = regexp.MustCompile(`^[0-9]+\.[0-9]+$`)

// refParse is the grammar of version strings.
func refParse(s string) (Ver, bool) {
	if !svRE.MatchString(s) {
		return Ver{}, false
	}
	a, b, _ := strings.Cut(s, ".")
	x, ok1 := refUint(a)
	y, ok2 := refUint(b)
	return Ver{x, y}, ok1 && ok2
}

func refUint(s string) (uint, bool) {
	var n uint64
	for _, ch := range s {
		n = n*10 + uint64(ch-'0')
		if n > 1<<32-1 {
			return 0, false
		}
	}
	return uint(n), true
}

func runP02(c *Ctx) {
	bad := func(f string, a ...any) { c.fail("version", f, a...) }
	pair := func(a, b Ver) {
		c.eval("pair")
		x, y := sv(a), sv(b)
		want := a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
		if x.Less(y) != want {
			bad("%s < %s is %v", x, y, x.Less(y))
		}
		if a == b && x != y {
			bad("%s != itself", x)
		}
		for _, v := range []Ver{a, b} {
			s := sv(v).String()
			if s != fmt.Sprintf("%d.%d", v[0], v[1]) {
				bad("%v prints as %q", v, s)
			}
			p, err := thema.ParseSyntacticVersion(s)
			if v[0] < 1<<32 && v[1] < 1<<32 {
				c.eval("roundtrip")
				if err != nil || p != sv(v) {
					bad("%q parses as %v, %v", s, p, err)
				}
			}
		}
		if a != b {
			c.distinct(a, b)
		}
	}
	if c.Case == 0 {
		for i := 0; i < 16; i++ {
			for j := 0; j < 16; j++ {
				pair(Ver{uint(i / 4), uint(i % 4)}, Ver{uint(j / 4), uint(j % 4)})
			}
		}
		return
	}
	num := func() uint {
		switch c.Intn(6) {
		case 0:
			return uint(c.Intn(3))
		case 1:
			return pick(c.Rand, []uint{9, 10, 99, 100, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1})
		case 2:
			return uint(c.Uint32())
		}
		return uint(c.Intn(120))
	}
	var vs []Ver
	for i := 0; i < 6; i++ {
		v := Ver{num(), num()}
		if i > 0 && c.Intn(2) == 0 {
			v[c.Intn(2)] = vs[i-1][c.Intn(2)]
		}
		vs = append(vs, v)
	}
	for _, a := range vs {
		for _, b := range vs {
			pair(a, b)
			for _, d := range vs { // transitivity
				if sv(a).Less(sv(b)) && sv(b).Less(sv(d)) && !sv(a).Less(sv(d)) {
					bad("%s < %s < %s, but not %s < %s", a, b, d, a, d)
				}
			}
		}
	}
	for i := 0; i < 30; i++ {
		s := hostileVersion(c)
		want, ok := refParse(s)
		got, err := thema.ParseSyntacticVersion(s)
		c.eval("parse")
		c.distinct(s)
		if i == 0 {
			c.sample("parse %q: valid=%v", s, ok)
		}
		switch {
		case ok && (err != nil || got != sv(want)):
			bad("%q parses as %v, %v; want %s", s, got, err, want)
		case !ok && err == nil:
			bad("%q parses as %s, but is malformed", s, got)
		case !ok && !is(err, terrors.ErrMalformedSyntacticVersion):
			bad("%q: error is not ErrMalformedSyntacticVersion: %s", s, err)
		}
	}
}

func hostileVersion(c *Ctx) string {
	part := func() string {
		switch c.Intn(8) {
		case 0:
			return pick(c.Rand, []string{"", " ", "-1", "+1", "0x1", "1e3", "1_0", "a", "４", "4294967296", "18446744073709551616", "99999999999999999999999", "00", "007", "*", "latest", "1 ", "\t1"})
		case 1:
			return strconv.Itoa(c.Intn(1 << 20))
		}
		return strconv.Itoa(c.Intn(12))
	}
	n := 2
	if c.Intn(4) == 0 {
		n = c.Intn(5)
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, part())
	}
	s := strings.Join(ps, pick(c.Rand, []string{".", ".", ".", ".", ".", "..", ",", "-", " . "}))
	if c.Intn(12) == 0 {
		s = pick(c.Rand, []string{"v", " ", "\n", "."}) + s
	}
	if c.Intn(12) == 0 {
		s += pick(c.Rand, []string{" ", "\n", ".", "\x00"})
	}
	return s
}
