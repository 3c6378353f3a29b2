package main

import (
	"fmt"
	"sort"
	"strings"
)

// stop is a point at which a run is made to end early.
type stop struct {
	wrap  []string
	fails string // the run must report this
	what  string
}

// stopAt chooses the point: at a system call for one of the files, at the n-th system call, or after some time.
func (t *T) stopAt(g *Gen, ref []string, in []string, stdout bool) stop {
	if !t.canTrace() || g.p(10) {
		d := fmt.Sprintf("0.%04d", 5+g.n(140))
		return stop{wrap: []string{"timeout", "-s", g.pick("KILL", "KILL", "TERM", "INT"), d}, what: "stopped after " + d + " s"}
	}
	base := []string{"strace", "-f", "-qq", "-o", "st.log"}
	sig := g.pick("KILL", "KILL", "KILL", "TERM", "INT", "HUP")
	if stdout && g.p(60) || g.p(20) {
		call, k := g.pick("write", "write", "openat", "close", "read", "mkdirat", "fcntl", "futex"), 1+g.n(2*len(ref)+6)
		return stop{wrap: append(base, "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=%s:when=%d", call, sig, k)), what: fmt.Sprintf("SIG%s at %s %d", sig, call, k)}
	}
	f, call, is := "", "", ""
	if len(ref) == 0 || stdout || g.p(20) {
		f, call, is = in[g.n(len(in))], g.pick("openat", "read", "read"), "input"
	} else {
		f, call, is = ref[g.n(len(ref))], g.pick("openat", "write", "write", "write", "close"), "output"
		if g.p(10) && strings.Contains(f, "/") {
			f, call = f[:strings.LastIndex(f, "/")], "mkdirat"
		}
	}
	base = append(base, "-e", "trace="+call, "-P", f, "-P", t.sb.Dir+"/"+f)
	what := fmt.Sprintf("at %s of the %s %s", call, is, f)
	if g.p(65) {
		return stop{wrap: append(base, "-e", fmt.Sprintf("inject=%s:signal=%s:when=1", call, sig)), what: "SIG" + sig + " " + what}
	}
	e := g.pick("EIO", "ENOSPC", "EDQUOT", "EMFILE", "ENOMEM")
	return stop{wrap: append(base, "-e", fmt.Sprintf("inject=%s:error=%s:when=1", call, e)), fails: e, what: e + " " + what}
}

// stoppedCase: a run which ends early leaves complete files behind, and nothing which is in the way of the next run.
func stoppedCase(t *T) {
	g := t.gen()
	g.comments = g.n(20)
	g.anchors = g.p(15)
	b := t.manyFiles(g, 8)
	if g.p(40) {
		for _, f := range b.in.Files {
			if g.p(50) {
				f.Out = g.pick("x/", "y/z/", "") + "o-" + fmt.Sprint(g.n(100000)) + ".yaml"
			}
		}
	}
	if g.p(20) { // an output which takes longer to write
		b.file("src/long.yaml", 1, func() *G {
			m := newMap()
			for k := 0; k < 1500; k++ {
				m.set(fmt.Sprintf("key%d", k), qs(g.word(20)))
			}
			return m
		})
	}
	s := b.done()
	s.OutDir = g.pick("out", "out", "deep/out", "@/abs/out")
	s.Stdout = g.p(15)
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err != nil || collision(want, nil) {
		t.skip("not specified")
		return
	}
	c := s.Case()
	r1 := t.run(c)
	if r1 == nil {
		return
	}
	if cr := r1.Crash(); cr != "" || r1.Exit != 0 {
		t.fail(c, r1, fmt.Sprintf("exit status %d, expected success: %s %s", r1.Exit, cr, firstLines(r1.Stderr, 3)))
		return
	}
	// the outputs in the order of the list
	var ref []string
	if !s.Stdout {
		for _, l := range strings.Split(strings.TrimSuffix(r1.Stdout, "\n"), "\n") {
			l = strings.TrimPrefix(l, t.sb.Dir+"/")
			if _, ok := r1.After[l]; !ok {
				if l != "" {
					t.fail(c, r1, "a file is listed which does not exist: "+l)
					return
				}
				continue
			}
			ref = append(ref, l)
		}
	}
	if n := newFiles(r1); len(n) != len(ref) {
		t.fail(c, r1, fmt.Sprintf("%d files are listed, %d written", len(ref), len(n)))
		return
	}
	var in []string
	for n := range c.Files {
		in = append(in, n)
	}
	sort.Strings(in)
	for k := 1 + g.n(2); k > 0; k-- {
		c2 := c.Clone()
		before := map[string]string{}
		if g.p(50) {
			for _, f := range ref {
				switch g.n(5) {
				case 0:
					before[f] = "former: " + g.word(30) + "\n"
				case 1:
					before[f] = r1.After[f] + "former: more\n"
				case 2:
					before[f] = strings.Repeat("former: content\n", g.n(3000))
				}
			}
			for f, x := range before {
				before[f] = strings.ReplaceAll(x, "@/", "@ /")
				c2.Files[f] = before[f]
			}
		}
		st := t.stopAt(g, ref, in, s.Stdout)
		c2.Wrap = st.wrap
		t.sig(s.Instr, s.Sources, s.OutDir, st.wrap)
		r := t.run(c2)
		if r == nil || !t.checkStopped(c2, r, r1, st, ref, before, s.Stdout) {
			return
		}
		// again, undisturbed
		r = t.again(c)
		if r == nil {
			return
		}
		after := "after a run which was ended (" + st.what + "): "
		if cr := r.Crash(); cr != "" || r.Exit != 0 {
			t.fail(c2, r, after+fmt.Sprintf("exit status %d: %s %s", r.Exit, cr, firstLines(r.Stderr, 3)))
			return
		}
		if r.Stdout != r1.Stdout {
			t.fail(c2, r, after+"standard output differs: "+lineDiff(r.Stdout, r1.Stdout))
			return
		}
		for _, f := range ref {
			if r.After[f] != r1.After[f] {
				t.fail(c2, r, after+f+" differs: "+lineDiff(r.After[f], r1.After[f]))
				return
			}
		}
		for f := range r.After {
			_, known := r1.After[f]
			if !known && f != "st.log" && !strings.HasSuffix(f, "/") {
				t.fail(c2, r, after+f+" is left behind")
				return
			}
		}
		t.count("runs_repeated")
	}
}

// checkStopped judges what a run which may have been ended early has left.
func (t *T) checkStopped(c *Case, r, r1 *Result, st stop, ref []string, before map[string]string, stdout bool) bool {
	injected := strings.Contains(r.After["st.log"], "(INJECTED)")
	ended := r.Signal != "" || r.Exit != 0
	if st.fails != "" {
		if !injected {
			t.count("not_reached")
		} else {
			t.count("errors_injected")
			if cr := r.Crash(); cr != "" {
				t.fail(c, r, st.what+": "+cr)
				return false
			}
			if r.Exit == 0 {
				t.fail(c, r, st.what+" is not reported")
				return false
			}
		}
	}
	switch {
	case !ended:
		t.count("ended_before_the_stop")
	case st.fails == "":
		t.count("runs_ended_by_a_signal")
	}
	if !strings.HasPrefix(r1.Stdout, r.Stdout) {
		t.fail(c, r, st.what+": standard output is not the beginning of the one of a complete run: "+lineDiff(r.Stdout, r1.Stdout))
		return false
	}
	if !ended && r.Stdout != r1.Stdout {
		t.fail(c, r, st.what+": exit status 0, but standard output is not complete")
		return false
	}
	for f, x := range c.Files {
		if _, out := before[f]; !out && r.After[f] != r.Before[f] {
			t.fail(c, r, fmt.Sprintf("%s: %s was changed, which has %d bytes", st.what, f, len(x)))
			return false
		}
	}
	listed := strings.Count(r.Stdout, "\n")
	t.addn("files_listed_before_the_stop", int64(listed))
	for i, f := range ref {
		got, is := r.After[f]
		want, old := r1.After[f], before[f]
		_, was := before[f]
		same := is == was && got == old
		switch {
		case i < listed-1 || !ended:
			if !is || got != want {
				t.fail(c, r, fmt.Sprintf("%s: %s is listed before others, but not complete (%d of %d bytes)", st.what, f, len(got), len(want)))
				return false
			}
			t.count("files_complete")
		case i > listed:
			if !same {
				t.fail(c, r, fmt.Sprintf("%s: %s was changed or written, which is behind the one after the last listed", st.what, f))
				return false
			}
			t.count("files_not_reached")
		default: // the one in work
			if !same && (!is || !strings.HasPrefix(want, got)) {
				t.fail(c, r, fmt.Sprintf("%s: %s has neither its former content nor the beginning of the new one: %s", st.what, f, lineDiff(got, want)))
				return false
			}
			if is && got != want && !same {
				t.count("files_cut_short")
			}
		}
	}
	return true
}

func init() {
	register(&Prop{id: "C31", quick: 1200, thorough: 12000, level: "fault_enumeration",
		rule:    "a case runs generated instructions over several files undisturbed, then (in a new directory, with or without former outputs) with a signal or an error injected at a system call on one of its outputs or inputs, at the n-th system call of some kind, or after some time; what is left is compared with the undisturbed run file by file, and the run is repeated in the same directory; distinct by instructions, sources and stopping point",
		assume:  []string{modelTrust, "without strace all runs are stopped after random times only", "files are written one after another in the order of the list; a file may be touched before or after it is listed"},
		min:     map[string]int64{"exit_0": 100, "runs_repeated": 300, "runs_ended_by_a_signal": 50},
		perCase: stoppedCase})
}
