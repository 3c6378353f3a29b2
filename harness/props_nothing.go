package main

import (
	"fmt"
	"sort"
	"strings"
)

// untouched tells what a run which failed over its inputs has left behind, "" if nothing.
func untouched(c *Case, r *Result) string {
	if r.Stdout != "" {
		return "standard output has " + firstLines(r.Stdout, 2)
	}
	var names []string
	for n := range r.After {
		names = append(names, n)
	}
	for n := range r.Before {
		if _, ok := r.After[n]; !ok {
			return n + " is gone"
		}
	}
	sort.Strings(names)
	for _, n := range names {
		old, ok := r.Before[n]
		if !ok {
			return n + " was created"
		}
		if old != r.After[n] {
			return n + " was changed: " + lineDiff(r.After[n], old)
		}
	}
	return ""
}

// nothingCase: a run which fails over one of its inputs has not output anything.
func nothingCase(t *T) {
	if t.idx%2 == 0 {
		nothingOfFew(t)
		return
	}
	// many files, something wrong with one of them
	var base *Result
	t.only = func(*Case, *Result, string) string { return "" }
	t.watch = func(c *Case) *Result {
		if base != nil && !outputFault(c) {
			for _, o := range outputsOf(base) {
				if t.r.Intn(2) == 0 {
					c.Files[o] = strings.Repeat("older: text\n", 1+t.r.Intn(100))
					t.count("former_outputs")
				}
			}
		}
		r, err := t.sb.Run(c)
		if err != nil {
			t.h.internal(fmt.Sprintf("%s case %d: %v", t.p.id, t.idx, err))
			return nil
		}
		t.note(c, r)
		if r.Exit == 0 {
			base = r
		}
		if r.Exit != 1 || r.Crash() != "" || outputFault(c) {
			return r
		}
		t.count("failures_among_many")
		t.addn("files_compared", int64(len(r.Before)))
		if w := untouched(c, r); w != "" {
			t.only = nil
			t.fail(c, r, "a run which fails over one of many files ("+firstLines(r.Stderr, 1)+"): "+w)
			t.only = func(*Case, *Result, string) string { return "" }
		}
		return r
	}
	blameCase(t)
}

// outputFault tells whether it is the output which cannot be written.
func outputFault(c *Case) bool {
	for n := range c.Links {
		if n == "out" || strings.HasPrefix(n, "out/") {
			return true
		}
	}
	for n := range c.Mode {
		if n == "out" || strings.HasPrefix(n, "out/") {
			return true
		}
	}
	for _, n := range c.Dirs {
		if n == "out" || strings.HasPrefix(n, "out/") {
			return true
		}
	}
	return c.Files["out"] != "" || c.Wrap != nil
}

// nothingOfFew: former outputs are in the way of a run with something wrong.
func nothingOfFew(t *T) {
	g := t.gen()
	f := g.failBase()
	for _, s := range f.sources {
		if g.p(20) {
			f.c.Files[s] = strings.Repeat(f.c.Files[s], 2+g.n(20))
			t.count("sources_of_many_documents")
		}
	}
	good := f.build(g).Clone()
	base := t.run(good)
	if base == nil {
		return
	}
	if base.Exit != 0 || base.Crash() != "" {
		t.skip("the unbroken case fails")
		return
	}
	c, what := g.breakIt(f, base)
	if c == nil {
		t.skip("not broken")
		return
	}
	if outputFault(c) {
		t.skip("the output is broken")
		return
	}
	outs := outputsOf(base)
	for _, o := range outs {
		if g.p(60) {
			c.Files[o] = g.pick("", "older: 1\n", base.After[o], strings.Repeat("older: text\n", 500))
			t.count("former_outputs")
		}
	}
	if g.p(20) {
		c.Files["out/unrelated.txt"] = "kept\n"
	}
	if g.p(15) {
		c.Args = append(c.Args, "-v", g.pick("debug", "info", "critical"))
	}
	t.sig(what, c.Files, c.Args)
	r := t.run(c)
	if r == nil {
		return
	}
	if r.Exit == 0 || r.Crash() != "" {
		// what has to fail is told by C19
		t.skip("does not fail")
		return
	}
	t.count("failures_" + strings.ReplaceAll(strings.SplitN(what, " ", 2)[0], ":", ""))
	t.addn("files_compared", int64(len(r.Before)))
	if w := untouched(c, r); w != "" {
		t.fail(c, r, "a run which fails ("+what+"): "+w)
	}
}

func init() {
	register(&Prop{id: "C33", quick: 900, thorough: 12000,
		rule:    "half of the cases break one thing of a valid use of yot, which is found before output (instructions, overlays, sources, directories, values, templates, configuration, flags, environment), with former outputs of several sizes in place; the others have 2 to 70 sources of one to four documents, one of which is wrong; every file before and after the run and standard output are compared; distinct by what is wrong, files and arguments",
		assume:  []string{"files are compared by name and content; C25 also compares inodes, modes and times"},
		min:     map[string]int64{"failures_among_many": 200, "former_outputs": 200, "failures_overlay": 10, "failures_source": 5, "failures_values": 15, "failures_instructions": 30},
		perCase: nothingCase})
}
