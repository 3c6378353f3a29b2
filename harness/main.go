package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Prop is the check of one property.
type Prop struct {
	id       string
	rule     string
	level    string
	quick    int // cases
	thorough int
	race     bool // needs the -race build
	perCase  func(t *T)
	once     func(t *T) // runs after the cases, in one worker
	assume   []string
	min      map[string]int64 // counters which must have been reached, otherwise the run observed too little
	workers  int
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.level == "" {
		p.level = "exploration"
	}
	props[p.id] = p
}

// T is the context of one case.
type T struct {
	h        *Harness
	p        *Prop
	idx      int
	r        *rand.Rand
	sb       *Sandbox
	trace    mTrace
	counts   map[string]int64
	sigs     []string
	trivial  bool
	skipped  string
	failed   []string
	sample   string
	outDocs  int64
	comments int64
	runs     int
	bytes    int64
	known    map[string]string

	only   func(c *Case, r *Result, msg string) string // which verdicts count, for the workload of another check
	mutate func(c *Case)                               // changes a case before it is run
	watch  func(c *Case) *Result                       // runs a case instead
}

func (t *T) count(k string)         { t.counts[k]++ }
func (t *T) addn(k string, n int64) { t.counts[k] += n }
func (t *T) skip(why string) {
	t.skipped = why
	t.trivial = true
}

func (t *T) gen() *Gen {
	g := &Gen{r: t.r, maxDepth: 3, width: 4, wild: t.r.Intn(3) > 0}
	switch k := t.r.Intn(100); {
	case k < 3: // more entries than usual
		g.maxDepth, g.width, g.size = 2, 12+t.r.Intn(60), 'w'
		t.count("wide_documents")
	case k < 6: // deeper than usual
		g.maxDepth, g.width, g.size = 6+t.r.Intn(16), 2, 'd'
		t.count("deep_documents")
	case k < 8: // more documents, queries and overlays than usual
		g.size = 'm'
		t.count("many_documents_or_overlays")
	}
	return g
}

func (t *T) run(c *Case) *Result {
	if t.mutate != nil {
		t.mutate(c)
	}
	if t.watch != nil {
		return t.watch(c)
	}
	r, err := t.sb.Run(c)
	if err != nil {
		t.h.internal(fmt.Sprintf("%s case %d: %v", t.p.id, t.idx, err))
		return nil
	}
	t.note(c, r)
	return r
}

func (t *T) again(c *Case) *Result {
	r, err := t.sb.RunAgain(c)
	if err != nil {
		t.h.internal(fmt.Sprintf("%s case %d: %v", t.p.id, t.idx, err))
		return nil
	}
	t.note(c, r)
	return r
}

func (t *T) note(c *Case, r *Result) {
	t.runs++
	t.bytes += int64(len(r.Stdout))
	t.counts[fmt.Sprintf("exit_%d", r.Exit)]++
	if t.sample == "" {
		t.sample = sampleOf(c, r)
	}
	if r.Race() != "" && t.p.id != "C15" {
		t.count("race_reports_elsewhere")
	}
}

func sampleOf(c *Case, r *Result) string {
	var b strings.Builder
	fmt.Fprintf(&b, "yot %s -> exit %d\n", strings.Join(c.Args, " "), r.Exit)
	var names []string
	for n := range c.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "== %s\n%s", n, clip(c.Files[n], 700))
	}
	if c.Stdin != "" {
		fmt.Fprintf(&b, "== stdin\n%s", clip(c.Stdin, 400))
	}
	fmt.Fprintf(&b, "== stdout\n%s", clip(r.Stdout, 500))
	return clip(b.String(), 2500)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "[...]\n"
	}
	return s
}

// sig registers what makes this case distinct.
func (t *T) sig(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.sigs = append(t.sigs, fmt.Sprintf("%x", h.Sum64()))
}

func (t *T) fail(c *Case, r *Result, msg string) {
	if t.only != nil {
		if msg = t.only(c, r, msg); msg == "" {
			t.count("verdicts_of_other_checks_left_to_them")
			return
		}
	}
	if id := t.h.isKnown(t.p.id, c, r, msg); id != "" {
		if t.known == nil {
			t.known = map[string]string{}
		}
		t.known[id] = msg
		return
	}
	t.failed = append(t.failed, msg)
	if len(t.failed) == 1 {
		t.h.report(t, c, r, msg)
	}
}

type Harness struct {
	mu      sync.Mutex
	seed    int64
	tier    string
	root    string
	verif   string
	yot     string
	race    string
	jitter  string
	uidRoot bool
	errs    []string
	replay  string
	viol    int
	verbose bool
	slow    bool
	oneCase int
	keep    bool
	strace  string
}

func (h *Harness) internal(s string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.errs) < 20 {
		h.errs = append(h.errs, s)
	}
}

func (h *Harness) report(t *T, c *Case, r *Result, msg string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.viol++
	if h.viol > 5 {
		return
	}
	dir := filepath.Join(h.verif, "replays", fmt.Sprintf("%s-seed%d-case%d", t.p.id, h.seed, t.idx))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	if c != nil {
		for n, v := range c.Files {
			p := filepath.Join(dir, "files", n)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(v), 0o644)
		}
		os.WriteFile(filepath.Join(dir, "case.json"), []byte(c.JSON()), 0o644)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d, case %d\n%s\n", t.p.id, h.seed, t.idx, msg)
	fmt.Fprintf(&b, "replay: bash %s/check.sh %s --case %d (VERIF_SEED=%d, VERIF_TIER=%s)\n", h.verif, t.p.id, t.idx, h.seed, h.tier)
	if r != nil {
		fmt.Fprintf(&b, "exit %d %s\n--- stdout\n%s\n--- stderr\n%s\n", r.Exit, r.Signal, clip(r.Stdout, 20000), clip(r.Stderr, 20000))
		b.WriteString("--- files written\n")
		cr, ch, rm := r.Changed()
		for _, n := range append(cr, ch...) {
			fmt.Fprintf(&b, "== %s\n%s\n", n, clip(r.After[n], 8000))
		}
		fmt.Fprintf(&b, "changed: %v removed: %v\n", ch, rm)
	}
	os.WriteFile(filepath.Join(dir, "report.txt"), []byte(b.String()), 0o644)
	if h.replay == "" {
		h.replay = dir
	}
	fmt.Printf("violation of %s in case %d: %s\n", t.p.id, t.idx, clip(msg, 1500))
}

func seedFor(id string, seed int64, idx int) int64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%d/%d", id, seed, idx)
	return int64(f.Sum64() & 0x7fffffffffffffff)
}

func main() {
	var id string
	h := &Harness{}
	var cases int
	flag.StringVar(&id, "prop", "", "property")
	flag.StringVar(&h.tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&h.seed, "seed", 1, "seed")
	flag.StringVar(&h.root, "work", "", "scratch directory")
	flag.StringVar(&h.verif, "verif", "/verif", "")
	flag.StringVar(&h.yot, "yot", "", "yot binary")
	flag.StringVar(&h.race, "race", "", "yot binary built with -race")
	flag.IntVar(&h.oneCase, "case", -1, "only this case")
	flag.IntVar(&cases, "n", 0, "number of cases")
	flag.BoolVar(&h.verbose, "v", false, "")
	flag.BoolVar(&h.slow, "slow", false, "name the slow cases")
	flag.StringVar(&h.jitter, "jitter", "", "yot binary with delays")
	inst := flag.String("instrument", "", "write an instrumented copy of the sources of this repository to the -work directory")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *inst != "" {
		if err := instrument(*inst, h.root); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		return
	}
	if *list {
		for id, p := range props {
			fmt.Println(id, p.race)
		}
		return
	}
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	h.uidRoot = os.Getuid() == 0
	start := time.Now()
	n := p.quick
	if h.tier == "thorough" {
		n = p.thorough
	}
	if cases > 0 {
		n = cases
	}
	total := h.runAll(p, n)
	os.Exit(h.finish(p, total, time.Since(start)))
}

type total struct {
	cases, trivial int
	sigs           map[string]bool
	counts         map[string]int64
	trace          mTrace
	samples        []string
	outDocs        int64
	comments       int64
	known          map[string]string
	skips          map[string]int
}

func (h *Harness) runAll(p *Prop, n int) *total {
	tot := &total{sigs: map[string]bool{}, counts: map[string]int64{}, known: map[string]string{}, skips: map[string]int{}}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	if p.workers > 0 {
		w = p.workers
	}
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < w; k++ {
		sb := &Sandbox{Root: h.root, Dir: filepath.Join(h.root, fmt.Sprintf("w%d", k), "case"), Yot: h.yot, Race: h.race, Jitter: h.jitter, IsRoot: h.uidRoot}
		os.MkdirAll(filepath.Dir(sb.Dir), 0o755)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				h.runCase(p, i, sb, tot)
			}
			sb.Reset()
			os.RemoveAll(sb.Dir)
		}()
	}
	if h.oneCase >= 0 {
		next <- h.oneCase
	} else {
		for i := 0; i < n; i++ {
			h.mu.Lock()
			stop := h.viol >= 5
			h.mu.Unlock()
			if stop {
				break
			}
			next <- i
		}
	}
	close(next)
	wg.Wait()
	return tot
}

func (h *Harness) runCase(p *Prop, i int, sb *Sandbox, tot *total) {
	t := &T{h: h, p: p, idx: i, r: rand.New(rand.NewSource(seedFor(p.id, h.seed, i))), sb: sb, counts: map[string]int64{}}
	start := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				h.internal(fmt.Sprintf("%s case %d: harness panic: %v\n%s", p.id, i, e, buf))
			}
		}()
		p.perCase(t)
	}()
	h.mu.Lock()
	defer h.mu.Unlock()
	if d := time.Since(start); d > 2*time.Second && h.slow {
		fmt.Printf("case %d took %.1f s\n", i, d.Seconds())
	}
	tot.cases++
	if t.trivial || len(t.sigs) == 0 {
		tot.trivial++
		tot.skips[clip(t.skipped, 60)]++
	} else {
		for _, s := range t.sigs {
			tot.sigs[s] = true
		}
		if len(tot.samples) < 3 && t.sample != "" && i%7 == 0 {
			tot.samples = append(tot.samples, t.sample)
		}
	}
	for k, v := range t.counts {
		tot.counts[k] += v
	}
	for k, v := range t.known {
		tot.known[k] = v
	}
	tot.trace.add(t.trace)
	tot.outDocs += t.outDocs
	tot.comments += t.comments
	if h.verbose && t.sample != "" {
		fmt.Printf("---- case %d skipped=%q failed=%v\n%s\n", i, t.skipped, t.failed, t.sample)
	}
}

func (h *Harness) finish(p *Prop, tot *total, wall time.Duration) int {
	if h.verbose {
		fmt.Println("skips:", tot.skips)
	}
	cov := map[string]interface{}{
		"evaluations":         runs.get(),
		"distinct_nontrivial": len(tot.sigs),
		"rule":                p.rule,
		"samples":             tot.samples,
		"cases":               tot.cases,
		"cases_not_judged":    tot.trivial,
		"observed":            tot.counts,
	}
	if tot.trace.Docs > 0 {
		cov["model_events"] = tot.trace
	}
	if tot.outDocs > 0 {
		cov["output_documents_compared"] = tot.outDocs
	}
	if tot.comments > 0 {
		cov["comments_compared"] = tot.comments
	}
	if len(tot.skips) > 0 {
		cov["not_judged_because"] = tot.skips
	}
	if len(tot.samples) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": h.tier, "seed": h.seed, "level": p.level, "coverage": cov,
		"assumptions": append([]string{"yot runs as an unprivileged user in a scratch directory; the verdict is about the executions of this run only"}, p.assume...),
		"wall_s":      float64(int(wall.Seconds()*100)) / 100, "violations": h.viol,
	}
	if h.oneCase < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(h.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(h.verif, "evidence", p.id+".json"), append(b, '\n'), 0o644); err != nil {
			h.errs = append(h.errs, err.Error())
		}
	}
	for id, msg := range tot.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.id, id, clip(strings.ReplaceAll(msg, "\n", " "), 300))
	}
	fmt.Printf("%s: %d cases (%d not judged), %d executions of yot, %d distinct non-trivial, %d violations, %.1f s\n", p.id, tot.cases, tot.trivial, runs.get(), len(tot.sigs), h.viol, wall.Seconds())
	if h.viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, h.replay)
		return 1
	}
	if len(h.errs) > 0 {
		fmt.Println("the check itself failed:", clip(strings.Join(h.errs, "\n"), 3000))
		return 2
	}
	if h.oneCase >= 0 {
		return 0
	}
	if len(tot.sigs) < 2 {
		fmt.Println("inconclusive: too little was observed")
		return 2
	}
	for k, v := range p.min {
		if h.slow {
			fmt.Printf("at least %d %s: %d\n", v, k, tot.counts[k])
		}
		if tot.counts[k] < v {
			fmt.Printf("inconclusive: %q was observed %d times, at least %d expected\n", k, tot.counts[k], v)
			return 2
		}
	}
	return 0
}

// Race returns the first report of the race detector.
func (r *Result) Race() string {
	if i := strings.Index(r.Stderr, "WARNING: DATA RACE"); i >= 0 {
		return firstLines(r.Stderr[i:], 40)
	}
	return ""
}
