package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"cuelang.org/go/cue"
	cueload "cuelang.org/go/cue/load"
	"github.com/grafana/thema"
	"github.com/grafana/thema/load"
)

func init() {
	register(&Check{ID: "P24", Quick: 1200, Thorough: 6000,
		Rule: "random CUE modules (packages, subpackages, imports inside the module, from cue.mod and of thema, other packages and data files beside them) are loaded through a monitored filesystem that is memory-backed, on disk, reads byte by byte, or fails at a chosen operation; oracle: the module's model (decoded content of the package, lineage bound from it), the list of files opened and closed, and for faults: error, or the very same result; distinct by module, directory, filesystem and fault",
		Run:  runP24})
}

var errInjected = errors.New("injected fault")

// monFS passes through to a filesystem, records what happens and can fail the
// k-th operation.
type monFS struct {
	in     fs.FS
	mu     sync.Mutex
	ops    int
	failAt int // 1-based; 0: never
	failed string
	open   int
	slow   bool // reads yield one to three bytes, and the end together with data
	names  map[string]bool
}

func (m *monFS) op(what, name string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.ops++
	if m.ops == m.failAt {
		m.failed = what + " " + name
		return &fs.PathError{Op: what, Path: name, Err: errInjected}
	}
	return nil
}

func (m *monFS) Open(name string) (fs.File, error) {
	if err := m.op("open", name); err != nil {
		return nil, err
	}
	f, err := m.in.Open(name)
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	m.open++
	m.names[name] = true
	m.mu.Unlock()
	return &monFile{File: f, m: m, name: name}, nil
}

type monFile struct {
	fs.File
	m      *monFS
	name   string
	closed bool
	k      int
}

func (f *monFile) Stat() (fs.FileInfo, error) {
	if err := f.m.op("stat", f.name); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f *monFile) Read(b []byte) (int, error) {
	if err := f.m.op("read", f.name); err != nil {
		return 0, err
	}
	if f.m.slow && len(b) > 3 {
		f.k++
		b = b[:1+f.k%3]
	}
	return f.File.Read(b)
}

func (f *monFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.m.op("readdir", f.name); err != nil {
		return nil, err
	}
	d, ok := f.File.(fs.ReadDirFile)
	if !ok {
		return nil, &fs.PathError{Op: "readdir", Path: f.name, Err: errors.New("not a directory")}
	}
	return d.ReadDir(n)
}

func (f *monFile) Close() error {
	f.m.mu.Lock()
	if !f.closed {
		f.closed = true
		f.m.open--
	}
	f.m.mu.Unlock()
	return f.File.Close()
}

// cueMod is the model of a module.
type cueMod struct {
	name  string
	files map[string]string
	dirs  map[string]map[string]map[string]any // directory -> package -> own fields
	imps  map[string]map[string]any            // directory -> package -> fields that refer to other packages
	order []string
}

var pkgWords = []string{"alpha", "beta", "gamma", "kit", "lin", "core", "util", "thema", "pkg", "mod", "x1", "a_b"}

func (c *Ctx) scalar() any {
	switch c.Intn(4) {
	case 0:
		return float64(c.Intn(1000))
	case 1:
		return c.Intn(2) == 0
	case 2:
		return []any{"x", float64(c.Intn(9)), map[string]any{"k": "v"}}
	}
	return []string{"a", "", "wörld", "q\"uote", "b\\s", "line\nbreak"}[c.Intn(6)]
}

func jsonTxt(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return strings.TrimSpace(b.String())
}

// addPkg writes a package into one or more files of a directory.
func (m *cueMod) addPkg(c *Ctx, dir, pkg string, imports map[string]map[string]any) {
	nf := 1 + c.Intn(3)
	if m.dirs[dir] == nil {
		m.dirs[dir] = map[string]map[string]any{}
	}
	own := m.dirs[dir][pkg]
	if own == nil {
		own = map[string]any{}
		m.dirs[dir][pkg] = own
	}
	var imp []string
	for p := range imports {
		imp = append(imp, p)
	}
	sort.Strings(imp)
	for i := 0; i < nf; i++ {
		var b, body strings.Builder
		fmt.Fprintf(&b, "package %s\n", pkg)
		for k := 0; k < 1+c.Intn(3); k++ {
			// The path of the file is part of the field: no two files disagree.
			f := fmt.Sprintf("f_%d_%d_%d", len(m.files), i, k)
			v := c.scalar()
			own[f] = v
			fmt.Fprintf(&body, "%s: %s\n", f, jsonTxt(v))
		}
		if i == 0 {
			for k, p := range imp {
				fields := imports[p]
				var names []string
				for n := range fields {
					names = append(names, n)
				}
				sort.Strings(names)
				n := names[c.Intn(len(names))]
				f := fmt.Sprintf("i_%d_%d", len(m.files), k)
				own[f] = fields[n]
				fmt.Fprintf(&b, "import im%d %q\n", k, p)
				fmt.Fprintf(&body, "%s: im%d.%s\n", f, k, n)
			}
		}
		fn := fmt.Sprintf("%s_%d.cue", []string{"z", "a", "file", "Lineage", "with.dot"}[c.Intn(5)], len(m.files))
		m.files[path.Join(dir, fn)] = b.String() + body.String()
	}
}

// content is what the package of a directory means: its own files and those
// of the same package in the directories above, up to the module's root.
func (m *cueMod) content(dir, pkg string) map[string]any {
	r := map[string]any{}
	for d := dir; ; d = path.Dir(d) {
		for k, v := range m.dirs[d][pkg] {
			r[k] = v
		}
		if d == "." {
			return r
		}
	}
}

func (c *Ctx) genMod() *cueMod {
	m := &cueMod{files: map[string]string{}, dirs: map[string]map[string]map[string]any{}}
	names := []string{"example.com/p", "example.com", "github.com/acme/kit", "a.b/c/d/e/f", "github.com/grafana/grafana", "github.com/grafana/thema/sub", "github.com/grafana/themax", "x.y/my-mod", "github.com/grafana/thema", "example.com/thema"}
	m.name = names[c.Intn(len(names))]
	mod := []string{"module: %q", "module: %q\n", "// a comment\nmodule: %q\nextra: 3\n", "{module: %q}", "_n: %q\nmodule: _n\n"}[c.Intn(5)]
	m.files["cue.mod/module.cue"] = fmt.Sprintf(mod, m.name)
	// packages others can import
	avail := map[string]map[string]any{}
	for i := 0; i < c.Intn(3); i++ {
		home := []string{"pkg", "gen", "usr"}[c.Intn(3)]
		ip := []string{"dep.org/one", "dep.org/two/three", "github.com/grafana/themaextra", "github.com/grafana/other", "github.com/other/thema"}[c.Intn(5)]
		d := path.Join("cue.mod", home, ip)
		dup := false
		for _, h := range []string{"pkg", "gen", "usr"} {
			if m.dirs[path.Join("cue.mod", h, ip)] != nil {
				dup = true
			}
		}
		if dup {
			continue
		}
		m.addPkg(c, d, path.Base(ip), nil)
		avail[ip] = m.dirs[d][path.Base(ip)]
		c.count("dependency:" + home)
	}
	dirs := []string{"."}
	for i := 0; i < 1+c.Intn(4); i++ {
		p := dirs[c.Intn(len(dirs))]
		d := path.Join(p, pkgWords[c.Intn(len(pkgWords))])
		if m.name == "github.com/grafana/thema" && (d == "thema" || d == "kit") {
			continue
		}
		if m.dirs[d] == nil {
			dirs = append(dirs, d)
		}
		pick := map[string]map[string]any{}
		var k []string
		for ip := range avail {
			k = append(k, ip)
		}
		sort.Strings(k)
		for _, ip := range k {
			if c.Intn(3) == 0 {
				pick[ip] = avail[ip]
			}
		}
		if m.dirs[d] != nil {
			pick = nil
		}
		m.addPkg(c, d, path.Base(d), pick)
		m.order = append(m.order, d)
		if _, clash := avail[m.name+"/"+d]; !clash && path.Base(d) != "thema" {
			// Imports see the package with what it has from the directories above.
			avail[m.name+"/"+d] = m.content(d, path.Base(d))
		}
		// What must not get in: other packages, tools, tests, data.
		if c.Intn(2) == 0 {
			m.files[path.Join(d, fmt.Sprintf("other%d.cue", i))] = fmt.Sprintf("package elsewhere\nwrong%d: 1\n", i)
		}
		if c.Intn(3) == 0 {
			m.files[path.Join(d, fmt.Sprintf("x%d_tool.cue", i))] = fmt.Sprintf("package %s\ntool%d: 1\n", path.Base(d), i)
		}
		if c.Intn(3) == 0 {
			m.files[path.Join(d, fmt.Sprintf("data%d.json", i))] = "{\"data\": 1}"
		}
		if c.Intn(3) == 0 {
			m.files[path.Join(d, fmt.Sprintf("notes%d.txt", i))] = "{{{ not cue"
		}
	}
	if c.Intn(2) == 0 && m.name != "github.com/grafana/thema" {
		pkg := path.Base(m.name)
		if strings.ContainsAny(pkg, "-.") {
			pkg = "rooted"
		}
		// Only imported packages that do not see the root: a package named like
		// the root would.
		m.addPkg(c, ".", pkg, nil)
		m.order = append(m.order, ".")
		for ip := range avail {
			if path.Base(ip) == pkg && strings.HasPrefix(ip, m.name+"/") {
				// keep the imported fields as they were: additions do not matter
				_ = ip
			}
		}
	}
	return m
}

func (m *cueMod) mapFS() fstest.MapFS {
	r := fstest.MapFS{}
	for n, s := range m.files {
		r[n] = &fstest.MapFile{Data: []byte(s)}
	}
	return r
}

func (m *cueMod) onDisk() string {
	d := scratch()
	for n, s := range m.files {
		f := filepath.Join(d, filepath.FromSlash(n))
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(s), 0o644))
	}
	return d
}

func (m *cueMod) text() string {
	var n []string
	for f := range m.files {
		n = append(n, f)
	}
	sort.Strings(n)
	var b strings.Builder
	for _, f := range n {
		fmt.Fprintf(&b, "-- %s --\n%s\n", f, m.files[f])
	}
	return b.String()
}

func (c *Ctx) monitored(m *cueMod) (*monFS, string) {
	mon := &monFS{names: map[string]bool{}}
	kind := []string{"memory", "disk", "sub", "slow"}[c.Intn(4)]
	switch kind {
	case "memory":
		mon.in = m.mapFS()
	case "disk":
		mon.in = os.DirFS(m.onDisk())
	case "sub":
		s := fstest.MapFS{"decoy.cue": {Data: []byte("package decoy\n")}}
		for n, f := range m.mapFS() {
			s["some/where/"+n] = f
		}
		sub, err := fs.Sub(s, "some/where")
		must(err)
		mon.in = sub
	case "slow":
		mon.in, mon.slow = m.mapFS(), true
	}
	return mon, kind
}

func loadJSON(rt *thema.Runtime, f fs.FS, dir string, opts ...load.Option) (r string, err error) {
	loader := load.InstanceWithThema
	if len(dir)%5 == 4 { // its former name
		loader = load.InstancesWithThema
	}
	inst, err := loader(f, dir, opts...)
	if err != nil {
		return "", err
	}
	v := rt.Context().BuildInstance(inst)
	if v.Err() != nil {
		return "", v.Err()
	}
	b, err := v.MarshalJSON()
	if err != nil {
		return "", err
	}
	var x any
	must(json.Unmarshal(b, &x))
	return jsonTxt(x), nil
}

func runP24(c *Ctx) {
	switch c.Intn(8) {
	case 0:
		c.badModules()
		return
	case 1:
		c.asModFS()
		return
	case 2:
		c.overlay()
		return
	case 3, 4:
		c.loadLineage()
		return
	}
	m := c.genMod()
	if len(m.order) == 0 {
		c.count("empty-module")
		return
	}
	dir := m.order[c.Intn(len(m.order))]
	rt := newRT()
	c.note("module:\n%s", m.text())
	pkg := path.Base(dir)
	var opts []load.Option
	if dir == "." {
		pkg = path.Base(m.name)
		if strings.ContainsAny(pkg, "-.") {
			pkg = "rooted"
			opts = append(opts, load.Package("rooted"))
		}
	} else if c.Intn(6) == 0 && strings.Contains(m.text(), "package elsewhere") && m.files[dir] == "" {
		for n, s := range m.files {
			if path.Dir(n) == dir && strings.HasPrefix(s, "package elsewhere") {
				c.otherPackage(rt, m, dir, s)
				break
			}
		}
	}
	spell := dir
	switch c.Intn(5) {
	case 0:
		if dir == "." {
			spell = ""
		} else {
			spell = "./" + dir
		}
	case 1:
		if dir != "." {
			spell = dir + "/"
		}
	}
	c.note("load %q (package %s)", spell, pkg)
	want := jsonTxt(m.content(dir, pkg))
	mon, kind := c.monitored(m)
	got, err := loadJSON(rt, mon, spell, opts...)
	c.eval("load:" + kind)
	c.distinct(m.text(), spell, kind)
	if err != nil {
		c.fail("load-error", "loading %q of a valid module from a %s filesystem: %s", spell, kind, oneLine(err))
		return
	}
	if got != want {
		c.fail("load-content", "loading %q from a %s filesystem gave\n%s\nwant\n%s", spell, kind, got, want)
		return
	}
	if mon.open != 0 {
		c.fail("load-leak", "%d files are still open after loading %q", mon.open, spell)
	}
	c.eval("closed")
	// A second load, and one with a fault.
	total := mon.ops
	mon.mu.Lock()
	mon.ops = 0
	mon.mu.Unlock()
	if again, err := loadJSON(newRT(), mon, spell, opts...); err != nil || again != want {
		c.fail("load-again", "the second load of %q gave %s, %s", spell, again, oneLine(err))
	}
	c.eval("load-again")
	for k := 0; k < 6; k++ {
		at := 1 + c.Intn(total)
		fm := &monFS{in: mon.in, slow: mon.slow, names: map[string]bool{}, failAt: at}
		got, err := loadJSON(newRT(), fm, spell, opts...)
		c.eval("fault:" + strings.SplitN(fm.failed+" ", " ", 2)[0])
		c.distinct(m.text(), spell, kind, at)
		if err == nil && got != want {
			c.fail("load-fault", "with a fault at %s, loading %q silently gave\n%s\nwant an error or\n%s", fm.failed, spell, got, want)
		}
		if err == nil && fm.failed != "" {
			c.fail("load-fault-ignored", "the fault at %s was not reported", fm.failed)
		}
		if err != nil && !errors.Is(err, errInjected) {
			c.fail("load-fault-cause", "the fault at %s was reported without its cause: %s", fm.failed, oneLine(err))
		}
		if fm.open != 0 {
			c.fail("load-leak", "%d files are still open after a fault at %s", fm.open, fm.failed)
		}
	}
	// a directory that does not exist
	if _, err := loadJSON(newRT(), mon, path.Join(dir, "nonexistent"), load.Package("nonexistent")); err == nil {
		c.fail("load-missing", "loading a directory that does not exist succeeded")
	}
	c.eval("missing-directory")
}

func (c *Ctx) otherPackage(rt *thema.Runtime, m *cueMod, dir, src string) {
	// Files of that package in this directory and the ones above.
	want := map[string]any{}
	for n, s := range m.files {
		if !strings.HasPrefix(s, "package elsewhere") {
			continue
		}
		d := path.Dir(n)
		if d == dir || d == "." || strings.HasPrefix(dir+"/", d+"/") {
			var k int
			if _, err := fmt.Sscanf(strings.TrimPrefix(s, "package elsewhere\n"), "wrong%d: 1", &k); err == nil {
				want[fmt.Sprintf("wrong%d", k)] = 1.0
			}
		}
	}
	got, err := loadJSON(rt, m.mapFS(), dir, load.Package("elsewhere"))
	c.eval("load:other-package")
	if err != nil || got != jsonTxt(want) {
		c.fail("load-package", "loading package elsewhere of %q gave %s, %s; want %s", dir, got, oneLine(err), jsonTxt(want))
	}
}

// badModules: filesystems that are not usable modules are refused as such.
func (c *Ctx) badModules() {
	m := c.genMod()
	for _, k := range m.order {
		_ = k
	}
	bad := []struct {
		what string
		f    func()
	}{
		{"no cue.mod", func() {
			for n := range m.files {
				if strings.HasPrefix(n, "cue.mod/") {
					delete(m.files, n)
				}
			}
		}},
		{"no module.cue", func() {
			delete(m.files, "cue.mod/module.cue")
			m.files["cue.mod/pkg/x.org/y/y.cue"] = "package y\n"
		}},
		{"empty name", func() { m.files["cue.mod/module.cue"] = `module: ""` }},
		{"no name", func() { m.files["cue.mod/module.cue"] = `other: "x.y/z"` }},
		{"empty file", func() { m.files["cue.mod/module.cue"] = "" }},
		{"name not a string", func() { m.files["cue.mod/module.cue"] = "module: 5" }},
		{"name not concrete", func() { m.files["cue.mod/module.cue"] = "module: string" }},
		{"syntax", func() { m.files["cue.mod/module.cue"] = `module: "x.y/z` }},
		{"conflict", func() { m.files["cue.mod/module.cue"] = "module: \"x.y/z\"\nmodule: \"x.y/w\"\n" }},
		{"thema present", func() {
			m.files["cue.mod/pkg/github.com/grafana/thema/lineage.cue"] = "package thema\n"
		}},
		{"thema present, nested", func() {
			m.files["cue.mod/pkg/github.com/grafana/thema/deep/x.cue"] = "package deep\n"
		}},
		{"cue.mod is a file", func() {
			for n := range m.files {
				if strings.HasPrefix(n, "cue.mod/") {
					delete(m.files, n)
				}
			}
			m.files["cue.mod"] = `module: "x.y/z"`
		}},
	}
	b := bad[c.Intn(len(bad))]
	b.f()
	c.note("bad module (%s):\n%s", b.what, m.text())
	mon, kind := c.monitored(m)
	dir := "."
	if len(m.order) > 0 {
		dir = m.order[0]
	}
	_, err := load.InstanceWithThema(mon, dir)
	c.eval("bad:" + b.what)
	c.distinct(m.text(), kind)
	var e *load.ErrFSNotACueModule
	if err == nil {
		c.fail("bad-accepted", "a filesystem with %s was loaded", b.what)
	} else if !errors.As(err, &e) {
		c.fail("bad-error", "a filesystem with %s was refused with %T: %s", b.what, err, oneLine(err))
	} else if e.Unwrap() == nil || !strings.Contains(err.Error(), e.Unwrap().Error()) && !strings.Contains(err.Error(), fmt.Sprintf("%q", e.Unwrap().Error())) {
		c.fail("bad-cause", "the error for %s does not carry its cause: %s", b.what, oneLine(err))
	}
	if mon.open != 0 {
		c.fail("load-leak", "%d files are still open after refusing a filesystem", mon.open)
	}
}

func dumpFS(f fs.FS) (map[string]string, error) {
	r := map[string]string{}
	err := fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			return nil
		}
		b, err := fs.ReadFile(f, p)
		r[p] = string(b)
		return err
	})
	return r, err
}

// asModFS: the module file is added where there is none, nothing else changes.
func (c *Ctx) asModFS() {
	m := c.genMod()
	has := c.Intn(2) == 0
	orig := m.files["cue.mod/module.cue"]
	if !has {
		delete(m.files, "cue.mod/module.cue")
	}
	mon, kind := c.monitored(m)
	name := []string{"other.org/name", "x.y", "a.b/c/d"}[c.Intn(3)]
	c.note("AsModFS %q on (%s):\n%s", name, kind, m.text())
	out := load.AsModFS(mon, name)
	got, err := dumpFS(out)
	c.eval(fmt.Sprintf("asmodfs:%v", has))
	c.distinct(m.text(), kind, name)
	if err != nil {
		c.fail("asmod-walk", "the filesystem AsModFS returned cannot be read: %s", oneLine(err))
		return
	}
	want := map[string]string{}
	for n, s := range m.files {
		want[n] = s
	}
	if has {
		want["cue.mod/module.cue"] = orig
	} else {
		g := got["cue.mod/module.cue"]
		s, err := newRT().Context().CompileString(g).LookupPath(cue.ParsePath("module")).String()
		if err != nil || s != name {
			c.fail("asmod-name", "AsModFS added a module file %q, want module %q", g, name)
		}
		want["cue.mod/module.cue"] = g
	}
	if jsonTxt(got) != jsonTxt(want) {
		c.fail("asmod-content", "AsModFS changed the files:\n%s\nwant\n%s", jsonTxt(got), jsonTxt(want))
	}
	// and the packages of it load, also where the filesystem then fails
	if len(m.order) == 0 || has && m.name == "github.com/grafana/thema" {
		return
	}
	dir := m.order[c.Intn(len(m.order))]
	if dir == "." {
		return
	}
	if !has && strings.Contains(m.text(), m.name+"/") {
		return // imports under the old name
	}
	wantC := jsonTxt(m.content(dir, path.Base(dir)))
	l, err := loadJSON(newRT(), out, dir)
	c.eval("asmodfs-load")
	if err != nil || l != wantC {
		c.fail("asmod-load", "loading %q after AsModFS gave %s, %s; want %s", dir, l, oneLine(err), wantC)
		return
	}
	total := mon.ops
	for k := 0; k < 3; k++ {
		fm := &monFS{in: mon.in, slow: mon.slow, names: map[string]bool{}, failAt: 1 + c.Intn(total)}
		l, err := loadJSON(newRT(), load.AsModFS(fm, name), dir)
		c.eval("asmodfs-fault")
		if err == nil && l != wantC {
			c.fail("asmod-fault", "with a fault at %s, loading %q silently gave\n%s\nwant an error or\n%s", fm.failed, dir, l, wantC)
		}
	}
}

// overlay: ToOverlay maps every file under the prefix and nothing else.
func (c *Ctx) overlay() {
	m := c.genMod()
	mon, kind := c.monitored(m)
	prefix := []string{"/", "/a", "/a/b.c/d", "/with space/x", "/tail/"}[c.Intn(5)]
	keep := map[string]cueload.Source{"/already/there.cue": cueload.FromString("x")}
	err := load.ToOverlay(prefix, mon, keep)
	c.eval("overlay")
	c.distinct(m.text(), kind, prefix)
	c.note("overlay at %q of (%s):\n%s", prefix, kind, m.text())
	if err != nil {
		c.fail("overlay-error", "ToOverlay: %s", oneLine(err))
		return
	}
	var got, want []string
	for n := range keep {
		got = append(got, n)
	}
	want = append(want, "/already/there.cue")
	for n := range m.files {
		want = append(want, filepath.Join(prefix, n))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		c.fail("overlay-files", "the overlay has\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if mon.open != 0 {
		c.fail("load-leak", "%d files are still open after ToOverlay", mon.open)
	}
	for _, p := range []string{"", ".", "rel", "rel/x", "./x"} {
		o := map[string]cueload.Source{}
		if err := load.ToOverlay(p, mon, o); err == nil || len(o) > 0 {
			c.fail("overlay-relative", "ToOverlay accepted the relative prefix %q", p)
		}
		c.eval("overlay-relative")
	}
	fm := &monFS{in: mon.in, slow: mon.slow, names: map[string]bool{}, failAt: 1 + c.Intn(mon.ops/6)}
	o := map[string]cueload.Source{}
	err = load.ToOverlay(prefix, fm, o)
	c.eval("overlay-fault")
	if fm.failed != "" && (err == nil || !errors.Is(err, errInjected)) {
		c.fail("overlay-fault", "the fault at %s was reported as %s", fm.failed, oneLine(err))
	}
	if fm.open != 0 {
		c.fail("load-leak", "%d files are still open after a fault in ToOverlay", fm.open)
	}
}

// loadLineage: lineages that import thema bind after loading, whatever the module.
func (c *Ctx) loadLineage() {
	m := c.genMod()
	dir, pkg := "lins/kind", "kind"
	if c.Intn(3) == 0 && !m.hasRoot() && m.name != "github.com/grafana/thema" {
		dir, pkg = ".", "rooted"
	}
	l := genLin(c.Rand, stdLin())
	body := l.body()
	at := ""
	src := "package " + pkg + "\n\nimport \"github.com/grafana/thema\"\n\n"
	switch c.Intn(3) {
	case 0:
		src += "thema.#Lineage\n" + body
	case 1:
		at = "lin"
		src += "lin: thema.#Lineage & {\n" + body + "}\n"
	case 2:
		at = "deep.lin"
		src += "deep: lin: thema.#Lineage\ndeep: lin: {\n" + body + "}\n"
	}
	m.files[path.Join(dir, "lineage.cue")] = src
	c.note("module:\n%s", m.text())
	mon, kind := c.monitored(m)
	inst, err := load.InstanceWithThema(mon, dir, load.Package(pkg))
	c.eval("lineage:" + kind)
	c.distinct(m.text(), kind)
	if err != nil {
		c.fail("lineage-load", "loading a lineage in %q: %s", dir, oneLine(err))
		return
	}
	rt := newRT()
	v := rt.Context().BuildInstance(inst)
	if at != "" {
		v = v.LookupPath(cue.ParsePath(at))
	}
	lin, err := thema.BindLineage(v, rt)
	if err != nil {
		c.fail("lineage-bind", "binding the lineage loaded from %q: %s", dir, oneLine(err))
		return
	}
	if lin.Name() != l.Name || len(lin.All()) != len(l.Schs) {
		c.fail("lineage-shape", "the lineage loaded has name %q and %d schemas, want %q and %d", lin.Name(), len(lin.All()), l.Name, len(l.Schs))
		return
	}
	for i, s := range lin.All() {
		if (Ver{s.Version()[0], s.Version()[1]}) != l.Schs[i].V {
			c.fail("lineage-shape", "schema %d of the loaded lineage is %s, want %s", i, s.Version(), l.Schs[i].V)
		}
	}
	_ = io.EOF
}

func (m *cueMod) hasRoot() bool { return m.dirs["."] != nil }
