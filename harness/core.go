package main

// The runner: deterministic case lists, sharded over processes, with monitors
// reporting into a per-shard record that the parent merges into evidence.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is the monitor deciding one property.
type Check struct {
	ID string
	// Rule: how cases are made and what makes one non-trivial.
	Rule string
	// Number of cases per tier.
	Quick, Thorough int
	// Procs limits the number of worker processes (0: one per core).
	Procs int
	// Race: run under the race detector's build.
	Race bool
	// Need: minimum observations per counter, per 1000 cases at the quick tier
	Run func(c *Ctx)
	// Optional: run once, in the parent, before the workers.
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is one case.
type Ctx struct {
	*rand.Rand
	ID    string
	Tier  string
	Seed  int64
	Case  int
	rec   *record
	notes []string
	mu    sync.Mutex
	Verb  bool
	genMu *sync.Mutex
	gens  []func() // checks of P25 to run when the goroutines are done
}

type violation struct {
	Key    string   `json:"key"`
	Msg    string   `json:"msg"`
	Case   int      `json:"case"`
	Detail []string `json:"detail"`
}

type record struct {
	Evals    int64            `json:"evals"`
	Counters map[string]int64 `json:"counters"`
	Distinct map[string]bool  `json:"distinct"`
	Samples  []string         `json:"samples"`
	Viols    []violation      `json:"viols"`
	Done     []int            `json:"done"`
}

func newRecord() *record {
	return &record{Counters: map[string]int64{}, Distinct: map[string]bool{}}
}

// eval counts one comparison by the oracle.
func (c *Ctx) eval(counter string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rec.Evals++
	c.rec.Counters[counter]++
}

func (c *Ctx) count(counter string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rec.Counters[counter]++
}

// distinct records the identity of a non-trivial case.
func (c *Ctx) distinct(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rec.Distinct[strconv.FormatUint(h.Sum64(), 36)] = true
}

func (c *Ctx) sample(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.rec.Samples) < 2 {
		c.rec.Samples = append(c.rec.Samples, trunc(fmt.Sprintf(f, a...), 1200))
	}
}

// note attaches context that is printed only when the case fails.
func (c *Ctx) note(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.notes) < 40 {
		c.notes = append(c.notes, trunc(fmt.Sprintf(f, a...), 6000))
	}
	if c.Verb {
		fmt.Fprintf(os.Stderr, "note: "+f+"\n", a...)
	}
}

// fail reports a violation. The key identifies it among known findings.
func (c *Ctx) fail(key, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rec.Counters["violations"]++
	if len(c.rec.Viols) < 50 {
		c.rec.Viols = append(c.rec.Viols, violation{key, trunc(fmt.Sprintf(f, a...), 4000), c.Case, append([]string(nil), c.notes...)})
	}
	if c.Verb {
		fmt.Fprintf(os.Stderr, "FAIL case %d [%s]: "+f+"\n", append([]any{c.Case, key}, a...)...)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d more)", len(s)-n)
	}
	return s
}

func caseSeed(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return int64(h.Sum64() >> 1)
}

func runCase(ck *Check, tier string, seed int64, i int, rec *record, verb bool) {
	c := &Ctx{Rand: rand.New(rand.NewSource(caseSeed(seed, ck.ID, i))), ID: ck.ID, Tier: tier, Seed: seed, Case: i, rec: rec, Verb: verb}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				c.fail("panic", "panic: %v\n%s", p, stackTop(st))
			}
		}()
		ck.Run(c)
	}()
	select {
	case <-done:
	case <-time.After(300 * time.Second):
		c.fail("hang", "no answer after 300 s (cases take milliseconds to seconds)")
	}
	rec.Done = append(rec.Done, i)
}

func stackTop(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/") || strings.Contains(l, "cuelang.org") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// scratch returns a fresh directory that is removed when the process ends.
var scratchOnce sync.Once
var scratchRoot string

func scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "w")
		must(err)
		scratchRoot = d
	})
	d, err := os.MkdirTemp(scratchRoot, "c")
	must(err)
	return d
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	fs := flag.NewFlagSet("h", flag.ExitOnError)
	var tier, only string
	var verb bool
	var from, n, shard, nshard int
	var out string
	fs.StringVar(&tier, "tier", "quick", "")
	fs.BoolVar(&verb, "v", false, "")
	fs.IntVar(&from, "from", 0, "first case")
	fs.IntVar(&n, "n", 0, "number of cases")
	fs.IntVar(&shard, "shard", -1, "")
	fs.IntVar(&nshard, "nshard", 1, "")
	fs.StringVar(&out, "out", "", "")
	fs.StringVar(&only, "case", "", "run only this case")
	must(fs.Parse(os.Args[1:]))
	id := fs.Arg(0)
	if id == "list" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if id == "israce" {
		if ck := checks[fs.Arg(1)]; ck != nil && ck.Race {
			fmt.Println("yes")
		}
		return
	}
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if x, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = x
		}
	}
	total := ck.Quick
	if tier == "thorough" {
		total = ck.Thorough
	}
	if n > 0 {
		total = n
	}
	if only != "" {
		i, err := strconv.Atoi(only)
		must(err)
		rec := newRecord()
		runCase(ck, tier, seed, i, rec, true)
		b, _ := json.MarshalIndent(rec.Viols, "", " ")
		fmt.Println(string(b))
		for k, v := range rec.Counters {
			fmt.Println(k, v)
		}
		cleanup()
		if len(rec.Viols) > 0 {
			os.Exit(1)
		}
		return
	}
	if shard >= 0 {
		rec := newRecord()
		for i := from + shard; i < from+total; i += nshard {
			// the parent learns which case was running should this process die
			os.WriteFile(out+".cur", []byte(strconv.Itoa(i)), 0o644)
			runCase(ck, tier, seed, i, rec, verb)
			if rec.Counters["violations"] > 200 {
				break
			}
		}
		b, err := json.Marshal(rec)
		must(err)
		must(os.WriteFile(out, b, 0o644))
		cleanup()
		return
	}
	os.Exit(parent(ck, tier, seed, from, total, verb))
}

func cleanup() {
	if scratchRoot != "" {
		os.RemoveAll(scratchRoot)
	}
}

func loadKnown(id string) map[string]string {
	known := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return known
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, txt, _ := strings.Cut(rest, " ")
		known[key] = txt
	}
	return known
}

func parent(ck *Check, tier string, seed int64, from, total int, verb bool) int {
	start := time.Now()
	procs := ck.Procs
	if procs == 0 {
		procs = runtime.NumCPU()
		if procs > 8 {
			procs = 8
		}
	}
	if procs > total {
		procs = total
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "p")
	must(err)
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	must(err)
	type res struct {
		rec  *record
		viol *violation
	}
	results := make([]res, procs)
	var wg sync.WaitGroup
	for s := 0; s < procs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprintf("s%d", s))
			args := []string{"-tier", tier, "-shard", strconv.Itoa(s), "-nshard", strconv.Itoa(procs), "-from", strconv.Itoa(from), "-n", strconv.Itoa(total), "-out", out}
			if verb {
				args = append(args, "-v")
			}
			cmd := exec.Command(exe, append(args, ck.ID)...)
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+dir, "GOMAXPROCS="+strconv.Itoa(gomaxprocs(ck, procs)),
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+out+".race")
			ef, _ := os.Create(out + ".err")
			cmd.Stderr, cmd.Stdout = ef, ef
			if verb {
				cmd.Stderr, cmd.Stdout = os.Stderr, os.Stderr
			}
			rerr := cmd.Run()
			ef.Close()
			b, err := os.ReadFile(out)
			rec := newRecord()
			if err == nil && json.Unmarshal(b, rec) == nil {
				results[s].rec = rec
			} else {
				cur, _ := os.ReadFile(out + ".cur")
				ci, _ := strconv.Atoi(string(cur))
				eb, _ := os.ReadFile(out + ".err")
				results[s].viol = &violation{Key: "crash", Msg: fmt.Sprintf("the process running the code died (%v)", rerr), Case: ci, Detail: []string{trunc(string(eb), 8000)}}
			}
		}(s)
	}
	wg.Wait()

	m := newRecord()
	for _, r := range results {
		if r.viol != nil {
			m.Viols = append(m.Viols, *r.viol)
			continue
		}
		m.Evals += r.rec.Evals
		for k, v := range r.rec.Counters {
			m.Counters[k] += v
		}
		for k := range r.rec.Distinct {
			m.Distinct[k] = true
		}
		if len(m.Samples) < 6 {
			m.Samples = append(m.Samples, r.rec.Samples...)
		}
		m.Viols = append(m.Viols, r.rec.Viols...)
		m.Done = append(m.Done, r.rec.Done...)
	}
	// race detector reports
	races := raceReports(dir)
	for _, rr := range races {
		m.Viols = append(m.Viols, violation{Key: "race:" + rr.sig, Msg: "data race reported by the race detector", Case: -1, Detail: []string{rr.text}})
	}
	if ck.Race {
		m.Counters["race_reports_distinct"] = int64(len(races))
	}

	known := loadKnown(ck.ID)
	seen := map[string]bool{}
	var bad []violation
	for _, v := range m.Viols {
		if txt, ok := known[v.Key]; ok {
			if !seen[v.Key] {
				seen[v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, txt)
			}
			continue
		}
		bad = append(bad, v)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Case < bad[j].Case })

	cov := map[string]any{
		"evaluations":         m.Evals,
		"distinct_nontrivial": len(m.Distinct),
		"rule":                ck.Rule,
		"samples":             m.Samples,
		"cases_run":           len(m.Done),
		"observed":            m.Counters,
		"worker_processes":    procs,
		"known_findings_seen": len(seen),
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": append([]string{"the reference model in harness/model.go and harness/lineage.go states the intended meaning", "CUE v0.5 evaluates the generated sub-language as its specification says"}, ck.Assumptions...),
	}
	edir := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(edir, 0o755))
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(edir, ck.ID+".json"), append(b, '\n'), 0o644))

	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1f s\n", ck.ID, tier, seed, len(m.Done), m.Evals, len(m.Distinct), len(bad), time.Since(start).Seconds())
	var cs []string
	for k := range m.Counters {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		fmt.Printf("  observed %-40s %d\n", k, m.Counters[k])
	}
	if len(bad) == 0 && m.Evals == 0 {
		bad = append(bad, violation{Key: "vacuous", Msg: "the monitor observed nothing", Case: -1})
	}
	if len(bad) == 0 {
		return 0
	}
	rdir := filepath.Join(edir, "replay")
	must(os.MkdirAll(rdir, 0o755))
	shown := map[string]bool{}
	for _, v := range bad {
		if shown[v.Key] && os.Getenv("VERIF_ALL") == "" || len(shown) >= 8 {
			continue
		}
		shown[v.Key] = true
		p := filepath.Join(rdir, fmt.Sprintf("%s-%s-case%d-%s.json", ck.ID, tier, v.Case, safe(v.Key)))
		rb, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "case": v.Case, "key": v.Key, "message": v.Msg, "detail": v.Detail,
			"replay": fmt.Sprintf("VERIF_SEED=%d bash /verif/run.sh %s %s -case %d", seed, ck.ID, tier, v.Case)}, "", " ")
		must(os.WriteFile(p, append(rb, '\n'), 0o644))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		fmt.Printf("  case %d [%s]: %s\n", v.Case, v.Key, trunc(v.Msg, 1500))
	}
	return 1
}

func gomaxprocs(ck *Check, procs int) int {
	if ck.Race {
		return 8
	}
	return 2
}

func safe(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return trunc(b.String(), 40)
}

type raceReport struct{ sig, text string }

// raceReports collects race detector logs, deduplicated by the functions at the
// two accesses.
func raceReports(dir string) []raceReport {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.race.*"))
	sort.Strings(fs)
	seen := map[string]bool{}
	var out []raceReport
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			var sig []string
			lines := strings.Split(blk, "\n")
			for i, l := range lines {
				if (strings.Contains(l, " at 0x") || strings.HasPrefix(l, "Previous")) && i+1 < len(lines) {
					fn := strings.TrimSpace(lines[i+1])
					if j := strings.LastIndex(fn, "("); j > 0 {
						fn = fn[:j]
					}
					sig = append(sig, fn)
				}
			}
			s := strings.Join(sig, "|")
			if !seen[s] {
				seen[s] = true
				out = append(out, raceReport{s, trunc(blk, 6000)})
			}
		}
	}
	return out
}
