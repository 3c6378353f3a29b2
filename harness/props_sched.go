package main

import (
	"fmt"
	"strings"
)

// variant is a way to run the same case with other schedules.
type variant struct {
	name string
	env  map[string]string
	args []string
	slow int
	bin  string
}

func (g *Gen) variant(k int) variant {
	v := variant{env: map[string]string{"GOMAXPROCS": g.pick("1", "2", "3", "4", "8", "32")}}
	v.name = "procs" + v.env["GOMAXPROCS"]
	switch g.n(4) {
	case 0:
		v.env["GOGC"] = "1"
		v.name += " gc1"
	case 1:
		v.env["GOGC"] = "off"
	case 2:
		v.env["GODEBUG"] = "asyncpreemptoff=1"
	}
	if g.p(50) {
		v.args = []string{"--log-level=" + g.pick("debug", "info", "d", "notice")}
		v.slow = 1 + g.n(7)
		v.name += " log"
	}
	switch k % 3 {
	case 0:
		v.bin = "race"
	case 1:
		v.bin = "jitter"
	}
	v.env["YOTVERIF_SCHED"] = fmt.Sprint(1 + g.r.Int63n(1<<40))
	v.name += " " + v.bin
	return v
}

// observable is what must not depend on the schedule.
func observable(r *Result) string {
	var b strings.Builder
	fmt.Fprintf(&b, "exit status %d\nstandard output:\n%s\n", r.Exit, r.Stdout)
	for _, f := range newFiles(r) {
		fmt.Fprintf(&b, "file %s:\n%s", f, r.After[f])
	}
	return b.String()
}

func schedCase(t *T) {
	g := t.gen()
	g.wild = g.p(30)
	g.anchors = g.p(25)
	g.comments = g.n(25)
	b := t.builder(g)
	nf := 2 + g.n(14)
	if g.p(10) {
		nf = 16 + g.n(24)
	}
	same := g.p(30) // equal files
	text, docs := "", []*Node(nil)
	for i := 0; i < nf; i++ {
		p := fmt.Sprintf("src/%sf%d.yaml", g.pick("", "d/", "d/e/"), i)
		j := 0
		mk := func() *G {
			j++
			if g.p(40) {
				return b.doc()
			}
			return g.shareDoc(fmt.Sprintf("f%d#%d", i, j))
		}
		switch {
		case same && i > 0:
			b.fileText(p, text, cloneDocs(docs))
		default:
			f := b.file(p, 1+g.n(3), mk)
			if i == 0 {
				text, docs = b.s.Sources[p], cloneDocs(f.docs)
			}
		}
	}
	for k := 1 + g.n(5); k > 0; k-- {
		b.addCommon(func() *Ov {
			if g.p(50) {
				o := &Ov{Action: g.pick("merge", "replace"), Query: []string{g.pick("$.places.*", "$.list[*]", "places.p0", "$..own", "$.list[*].v")}}
				o.Value = g.sharedValue(o.Action == "merge")
				return o
			}
			if g.p(30) {
				return &Ov{Query: []string{fmt.Sprintf("made.n%d", g.n(3))}, Value: g.sharedValue(false), Missing: "inject"}
			}
			return b.ov(b.inScope(all), ovOpt{expr: 40, multi: 20, actions: []string{"merge", "merge", "replace", "combine", "delete"}})
		})
	}
	for _, f := range b.files {
		f := f
		if g.p(40) {
			b.addFile(f, func() *Ov {
				return b.ov(b.inScope(func(x *bFile, i int) bool { return x == f }), ovOpt{expr: 20, actions: []string{"merge", "replace", "delete"}})
			})
		}
	}
	if g.p(6) { // an overlay which fails for some of the files
		o := &Ov{Query: []string{"$"}, Action: "combine", Value: sc("never")}
		f := b.files[g.n(len(b.files))]
		for _, e := range b.in.Files {
			if strings.HasSuffix(e.Path, f.path) {
				e.Ovs = append(e.Ovs, o)
			}
		}
		t.count("failing_scenarios")
	}
	s := b.done()
	s.Stdout = g.p(50)
	t.sig(s.Instr, s.Sources)
	c := s.Case()
	base := t.run(c)
	if base == nil {
		return
	}
	if cr := base.Crash(); cr != "" {
		t.fail(c, base, cr)
		return
	}
	want := observable(base)
	t.addn("files_processed_concurrently", int64(nf))
	n := 4
	if t.h.tier == "thorough" {
		n = 9
	}
	off := g.n(3)
	for k := 0; k < n; k++ {
		v := g.variant(k + off)
		c2 := c.Clone()
		for n, x := range v.env {
			c2.Env[n] = x
		}
		c2.Args = append(c2.Args, v.args...)
		c2.Slow, c2.Bin = v.slow, v.bin
		r := t.run(c2)
		if r == nil {
			return
		}
		t.count("runs_" + strings.TrimSpace("plain"+v.bin))
		if race := r.Race(); race != "" {
			t.fail(c2, r, "data race:\n"+race)
			return
		}
		if cr := r.Crash(); cr != "" {
			t.fail(c2, r, v.name+": "+cr)
			return
		}
		if got := observable(r); got != want {
			t.fail(c2, r, fmt.Sprintf("a run with another schedule (%s) has another result: %s", v.name, lineDiff(got, want)))
			return
		}
		t.count("schedules_compared")
	}
	if base.Exit != 0 {
		return
	}
	// a file alone
	for k := 0; k < 2; k++ {
		f := b.files[g.n(len(b.files))]
		files := b.in.Files
		var one []*FileEntry
		for _, e := range files {
			if strings.HasSuffix(e.Path, "/"+f.path) || e.Path == f.path {
				one = append(one, e)
			}
		}
		if len(one) != 1 {
			continue
		}
		b.in.Files = one
		s2 := *s
		s2.Stdout = false
		s2.Instr = g.instrText(b.in)
		b.in.Files = files
		sAll := *s
		sAll.Stdout = false
		cAll := (&sAll).Case()
		rAll := t.run(cAll)
		c2 := (&s2).Case()
		r2 := t.run(c2)
		if rAll == nil || r2 == nil {
			return
		}
		names := newFiles(r2)
		if r2.Exit != 0 || len(names) > 1 {
			t.fail(c2, r2, fmt.Sprintf("the file alone: exit status %d, files %v", r2.Exit, names))
			return
		}
		for _, n := range names {
			// alone, the name is made from another common directory
			m := ""
			for _, x := range newFiles(rAll) {
				if x == n || strings.HasSuffix(x, "/"+strings.TrimPrefix(n, "out/")) {
					m = x
				}
			}
			if m == "" || rAll.After[m] != r2.After[n] {
				t.fail(c2, r2, fmt.Sprintf("%s alone differs from its result among others (%s): %s", n, m, lineDiff(r2.After[n], rAll.After[m])))
				return
			}
			t.count("alone_compared")
		}
	}
}

func init() {
	register(&Prop{id: "C15", quick: 150, thorough: 2500, race: true,
		rule:    "a case runs a generated scenario of 2 to 40 files sharing overlays repeatedly: with different processor counts, garbage collection and preemption settings, log levels with a slow reader of the log, builds with seeded delays and yields before the statements of all packages, and race detector builds with these delays; exit status, standard output and all files are compared byte by byte, and files with the result of processing them alone; distinct by instructions and sources",
		assume:  []string{"the race detector and the comparison see the schedules which occurred in these runs only"},
		min:     map[string]int64{"schedules_compared": 100},
		perCase: schedCase})
}
