package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

// fileStat is what must not change about an input.
type fileStat struct {
	ino   uint64
	mode  os.FileMode
	size  int64
	mtime time.Time
	links uint64
}

func (f fileStat) String() string {
	return fmt.Sprintf("inode %d, mode %s, %d bytes, modified %s", f.ino, f.mode, f.size, f.mtime.UTC().Format(time.RFC3339Nano))
}

// age gives all files a modification time in the past and returns what they are like.
func (s *Sandbox) age() map[string]fileStat {
	old := time.Unix(1500000000, 0)
	filepath.Walk(s.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			os.Chtimes(p, old, old)
		}
		return nil
	})
	return s.stats()
}

func (s *Sandbox) stats() map[string]fileStat {
	m := map[string]fileStat{}
	filepath.Walk(s.Dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(s.Dir, p)
		f := fileStat{mode: i.Mode(), size: i.Size(), mtime: i.ModTime()}
		if st, ok := i.Sys().(*syscall.Stat_t); ok {
			f.ino, f.links = st.Ino, uint64(st.Nlink)
		}
		m[rel] = f
		return nil
	})
	return m
}

// runKept runs a case and checks that nothing but the allowed files was touched. allowed is nil if the files listed on
// standard output are the allowed ones.
func (t *T) runKept(c *Case, allowed map[string]bool, what string) *Result {
	if err := t.sb.Prepare(c); err != nil {
		t.h.internal(err.Error())
		return nil
	}
	if t.idx%3 != 0 { // a place for a configuration
		if err := os.MkdirAll(filepath.Join(t.sb.Dir, ".yot"), 0o755); err != nil {
			t.h.internal(err.Error())
			return nil
		}
		t.sb.chown(filepath.Join(t.sb.Dir, ".yot"))
	}
	before := t.sb.age()
	r := t.again(c)
	if r == nil {
		return nil
	}
	if r.TimedOut { // the directory was prepared anew
		t.fail(c, r, "yot does not end")
		return r
	}
	after := t.sb.stats()
	delete(after, "st.log")
	delete(after, "stdout.txt")
	if allowed == nil {
		allowed = map[string]bool{}
		for _, l := range strings.Split(r.Stdout, "\n") {
			if l == "" {
				continue
			}
			if !path.IsAbs(l) {
				l = path.Join(t.sb.Dir, c.Cwd, l)
			}
			allowed[rel(path.Clean(l), t.sb.Dir)] = true
		}
	}
	if what != "" {
		what += ": "
	}
	var names []string
	for n := range before {
		names = append(names, n)
	}
	for n := range after {
		if _, ok := before[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		b, was := before[n]
		a, is := after[n]
		switch {
		case allowed[n]:
			if was && !is {
				t.fail(c, r, what+n+" was removed")
				return r
			}
			t.count("outputs_seen")
		case !was:
			t.fail(c, r, what+"created "+n+", which is not one of its outputs")
			return r
		case !is:
			t.fail(c, r, what+n+" was removed")
			return r
		case a != b || r.Before[n] != r.After[n]:
			t.fail(c, r, fmt.Sprintf("%s%s was modified: %s before, %s after", what, n, b, a))
			return r
		default:
			t.count("files_kept")
		}
	}
	// directories: only those which outputs need, and the output directory
	for n := range r.After {
		if _, ok := r.Before[n]; ok || !strings.HasSuffix(n, "/") {
			continue
		}
		need := false
		for o := range allowed {
			need = need || strings.HasPrefix(o, n)
		}
		if !need && what == "" && r.Exit == 0 {
			t.fail(c, r, "created the directory "+n+", which no output needs")
			return r
		}
	}
	for n := range r.Before {
		if _, ok := r.After[n]; !ok && n != "st.log" {
			t.fail(c, r, what+n+" was removed")
			return r
		}
	}
	return r
}

// decoys are files near the inputs and outputs which must stay as they are.
func (g *Gen) decoys(c *Case, outs []string) {
	add := func(n string) {
		for o := range c.Files {
			if o == n || strings.HasPrefix(o, n+"/") || strings.HasPrefix(n, o+"/") {
				return
			}
		}
		for _, o := range outs {
			if o == n || strings.HasPrefix(o, n+"/") || strings.HasPrefix(n, o+"/") {
				return
			}
		}
		c.Files[n] = "decoy\n"
	}
	var all []string
	for n := range c.Files {
		all = append(all, n)
	}
	all = append(all, outs...)
	sort.Strings(all)
	for _, n := range all {
		switch g.n(6) {
		case 0:
			add(n + g.pick(".bak", "~", ".tmp", ".orig", ".new", ".swp"))
		case 1:
			add(path.Join(path.Dir(n), g.pick(".tmp", "."+path.Base(n)+".tmp", "stdin.yaml", "output.txt", "unrelated.json", "keep.txt")))
		case 2:
			add(path.Join(path.Dir(n), "older", g.pick("a.txt", "b.json")))
		}
	}
	add("output/unrelated.txt")
	add("out/unrelated.txt")
	add("yot.log")
}

// keepCase runs a use of yot which succeeds.
func keepCase(t *T) {
	g := t.gen()
	g.comments = g.n(20)
	b := t.manyFiles(g, 5)
	if len(b.forms) == 0 {
		b.forms = append(b.forms, "")
	}
	s := b.s
	s.IPath = g.pick("i.yaml", "in/i.yaml", "src/inst.txt")
	outs := 0
	inPlace := false
	for _, f := range b.in.Files {
		if g.p(25) {
			f.Out = g.pick("renamed-"+path.Base(f.Path), "new/dir", "deep/er/x.yaml", "@/abs/"+path.Base(f.Path))
			if g.p(20) && f.Path[0] != '@' {
				f.Out = "@/" + f.Path // in place
				inPlace = true
			}
			outs++
		}
	}
	b.done()
	switch g.n(6) {
	case 0:
		s.OutDir, s.NoOut = "output", true
	case 1:
		s.OutDir = "@/abs/o"
	case 2:
		s.OutDir = "src/out"
	case 3:
		s.Stdout = true
	case 4:
		s.OutDir = g.pick("src", ".") // close to the sources
	}
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err != nil || !s.Stdout && collision(want, nil) {
		t.skip("not specified")
		return
	}
	c := s.Case()
	if g.p(40) {
		c.Files["values.yaml"] = "a: {b: 1}\nl: [1]\n"
		c.Files["values2.yaml"] = "a: {c: 1}\nl: [2]\n"
		if !strings.Contains(s.Instr, "{{") {
			c.Args = append(c.Args, "-f", "values.yaml", "-f", "values2.yaml")
			t.count("with_values")
		}
	}
	if g.p(30) {
		c.Files["conf.yaml"] = "indentLevel: 4\n"
		c.Args = append(c.Args, "--config", "conf.yaml")
	} else if g.p(30) {
		c.Files["yot.config"] = "removeComments: true\n"
	}
	if g.p(40) {
		c.Args = append(c.Args, logArgs[g.n(len(logArgs))]...)
	}
	var names []string
	for _, w := range want {
		names = append(names, rel(w.Name, t.sb.Dir))
	}
	g.decoys(c, names)
	if s.OutDir == "src" || s.OutDir == "." {
		for _, n := range names {
			if _, ok := c.Files[n]; ok {
				inPlace = true
			}
		}
	}
	if inPlace {
		t.count("output_in_place")
	}
	if t.idx%4 == 0 && !s.Stdout { // the content of a former run
		for _, n := range names {
			if _, ok := c.Files[n]; !ok && g.p(70) {
				c.Files[n] = "former: output\n"
			}
		}
	}
	if g.p(20) { // sources which cannot be written
		c.Mode = map[string]uint32{}
		for n := range s.Sources {
			isOut := false
			for _, o := range names {
				isOut = isOut || o == n
			}
			if !isOut {
				c.Mode[n] = 0o444
			}
		}
	}
	t.sig(s.Instr, s.Sources, s.OutDir, c.Args)
	var allowed map[string]bool
	if s.Stdout {
		allowed = map[string]bool{}
		t.count("stdout_mode")
	}
	r := t.runKept(c, allowed, "")
	if r == nil || len(t.failed) > 0 {
		return
	}
	if cr := r.Crash(); cr != "" || r.Exit != 0 {
		t.fail(c, r, fmt.Sprintf("exit status %d, expected success: %s %s", r.Exit, cr, firstLines(r.Stderr, 3)))
		return
	}
	if s.Stdout {
		return
	}
	// what is listed is what the instructions ask for
	exp := map[string]bool{}
	for _, w := range want {
		if len(w.Docs) > 0 {
			exp[rel(w.Name, t.sb.Dir)] = true
		}
	}
	for _, l := range strings.Split(r.Stdout, "\n") {
		if l == "" {
			continue
		}
		if !path.IsAbs(l) {
			l = path.Join(t.sb.Dir, c.Cwd, l)
		}
		n := rel(path.Clean(l), t.sb.Dir)
		if !exp[n] {
			t.fail(c, r, "wrote "+n+", which the instructions do not ask for")
			return
		}
	}
	if inPlace { // sources which are outputs have their new content, computed from all the sources as they were
		for _, w := range want {
			if len(w.Docs) > 0 && !strings.Contains(strings.Join(c.Args, " "), "config") && c.Files["yot.config"] == "" {
				text, _ := r.fileAt(w.Name, t.sb.Dir)
				t.compareText(c, r, rel(w.Name, t.sb.Dir), text, w.Docs, s, judgeOpt{})
			}
		}
	}
}

// keepFailing runs a use of yot which fails.
func keepFailing(t *T) {
	g := t.gen()
	f := g.failBase()
	if f.stdout && g.p(60) {
		f.stdout = false
		f.c.Args = f.c.Args[:len(f.c.Args)-1]
		for i, a := range f.c.Args {
			if a == "-s" {
				f.c.Args = append(append(append([]string{}, f.c.Args[:i]...), "-o", "out"), f.c.Args[i+1:]...)
				break
			}
		}
		if !strings.Contains(strings.Join(f.c.Args, " "), "-o out") {
			f.c.Args = append(f.c.Args, "-o", "out")
		}
	}
	good := f.build(g).Clone()
	base := t.run(good)
	if base == nil {
		return
	}
	if base.Exit != 0 {
		t.skip("the unbroken case fails")
		return
	}
	allowed := map[string]bool{}
	for _, o := range newFiles(base) {
		allowed[o] = true
	}
	c, what := g.breakIt(f, base)
	if c == nil {
		t.skip("not broken")
		return
	}
	for n, d := range c.Links {
		if strings.HasPrefix(d, "/dev/") {
			allowed[n] = true
		}
	}
	if f.stdout {
		allowed = map[string]bool{}
	}
	g.decoys(c, newFiles(base))
	t.sig(what, c.Files["i.yaml"], c.Args)
	r := t.runKept(c, allowed, what)
	if r != nil {
		t.count("failing_runs")
	}
}

// writing system calls on a path, as strace prints them
var (
	traceLine  = regexp.MustCompile(`^\d+ +(\w+)\((.*)`)
	tracePath  = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)
	writeFlags = regexp.MustCompile(`O_WRONLY|O_RDWR|O_TRUNC|O_CREAT|O_APPEND`)
)

// traceWrites lists the paths (relative to the case directory) a traced run has opened for writing, removed, renamed or
// changed in other ways.
func (t *T) traceWrites(log, cwd string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(log, "\n") {
		x := traceLine.FindStringSubmatch(l)
		if x == nil {
			continue
		}
		if strings.HasPrefix(x[1], "open") && !writeFlags.MatchString(x[2]) {
			continue
		}
		for _, p := range tracePath.FindAllStringSubmatch(x[2], -1) {
			n := p[1]
			if !path.IsAbs(n) {
				n = path.Join(t.sb.Dir, cwd, n)
			}
			n = path.Clean(n)
			if n == t.sb.Dir || strings.HasPrefix(n, t.sb.Dir+"/") {
				m[rel(n, t.sb.Dir)] = x[1]
			} else if !strings.HasPrefix(n, "/dev/") && !strings.HasPrefix(n, "/proc/") && !strings.HasPrefix(n, "/sys/") {
				m["OUTSIDE "+n] = x[1]
			}
		}
	}
	return m
}

const traceCalls = "open,openat,openat2,creat,unlink,unlinkat,rename,renameat,renameat2,truncate,chmod,fchmodat,chown,fchownat,lchown,link,linkat,symlink,symlinkat,rmdir,mknod,mknodat,utimensat,setxattr"

// traceCase watches the system calls of a run, which also shows what is undone later, and kills yot at some point.
func traceCase(t *T) {
	g := t.gen()
	f := g.failBase()
	if !t.canTrace() {
		t.count("strace_unavailable")
		keepFailing(t)
		return
	}
	good := f.build(g).Clone()
	c := good.Clone()
	what := ""
	base := t.run(good)
	if base == nil || base.Exit != 0 {
		t.skip("the unbroken case fails")
		return
	}
	allowed := map[string]bool{"st.log": true}
	for _, o := range newFiles(base) {
		allowed[o] = true
	}
	broken := g.p(30)
	if broken {
		b, w := g.breakIt(f, base)
		if b == nil || b.Wrap != nil {
			t.skip("not broken")
			return
		}
		c, what = b, w
		for n := range b.Links {
			allowed[n] = true
		}
	}
	t.sig(what, c.Files["i.yaml"], c.Args)
	c1 := c.Clone()
	c1.Wrap = []string{"strace", "-f", "-qq", "-s", "4096", "-o", "st.log", "-e", "trace=" + traceCalls}
	r := t.run(c1)
	if r == nil {
		return
	}
	if !broken && r.Exit != 0 {
		t.fail(c1, r, "fails when traced: "+firstLines(r.Stderr, 3))
		return
	}
	ws := t.traceWrites(r.After["st.log"], "")
	for n, call := range ws {
		if allowed[n] {
			continue
		}
		if _, in := c.Files[n]; in || strings.HasPrefix(n, "OUTSIDE") {
			t.fail(c1, r, fmt.Sprintf("%s%s of %s, which is not an output", prefixed(what), call, n))
			return
		}
	}
	t.addn("writing_calls_seen", int64(len(ws)))
	t.count("runs_traced")
	if broken {
		return
	}
	// killed in the middle
	call := g.pick("write", "openat", "close", "mkdirat")
	c2 := c.Clone()
	c2.Wrap = []string{"strace", "-f", "-qq", "-o", "st.log", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, 1+g.n(12))}
	r = t.runKept(c2, allowed, "killed")
	if r == nil {
		return
	}
	if r.Signal != "" {
		t.count("runs_killed")
	}
}

// lentCase watches the files of the workload of another check.
func lentCase(t *T) {
	g := t.gen()
	none := func(c *Case, r *Result, msg string) string { return "" }
	t.only = none
	t.watch = func(c *Case) *Result {
		t.only = nil
		r := t.runKept(c, nil, "")
		t.only = none
		if r != nil && r.Exit != 0 {
			t.count("failing_runs")
		}
		return r
	}
	t.borrow(g, g.pick("C01", "C08", "C09", "C11", "C13", "C16", "C16", "C17", "C17", "C18", "C20", "C21", "C22", "C23", "C24"))
}

func prefixed(s string) string {
	if s == "" {
		return ""
	}
	return s + ": "
}

func init() {
	register(&Prop{id: "C25", quick: 2400, thorough: 20000, level: "fault_enumeration",
		rule:   "half of the cases run generated instructions, which succeed, with output near, among or in the place of sources and with other files around; a third break one thing of the catalogue of C19; the rest watch all system calls of a run (strace) and kill yot at some system call; inode, mode, size, modification time and content of every file which is not an output are compared, and what was written with the listing; distinct by instructions and arguments",
		assume: []string{modelTrust, "without strace the last kind of cases is replaced by the second", "the sed commands w and r, by which the author of an overlay asks for file access, are not generated"},
		min:    map[string]int64{"exit_0": 100, "files_kept": 1000, "outputs_seen": 300, "failing_runs": 100},
		perCase: func(t *T) {
			switch t.idx % 6 {
			case 1, 3:
				keepFailing(t)
			case 2:
				lentCase(t)
			case 5:
				traceCase(t)
			default:
				keepCase(t)
			}
		}})
}
