package main

import (
	"fmt"
	"os/exec"
	"path"
	"sort"
	"strings"
	"sync"
)

// failBase is a valid use of yot with every kind of input, which is then broken at one place.
type failBase struct {
	c       *Case
	sources []string
	outputs []string // relative to the case directory
	common  []string // overlays, as flow mappings
	file    map[string][]string
	docs    map[string][]string
	extra   []string // lines added to the instructions
	dirs    []string // directories listed in the instructions
	stdout  bool
}

var goodOverlays = []string{
	`{query: m.a, value: 2}`,
	`{query: "$.n", value: 7, action: replace}`,
	`{name: third, query: [m, s], action: replace, value: {x: [1, "2", null]}}`,
	`{query: "$.list[?(@.k=='v')].w", value: "%v-more"}`,
	`{query: gone, action: delete}`,
	`{query: new.path, value: {a: b}, onMissing: {action: inject}}`,
	`{query: "$.b", value: false, documentQuery: [{conditions: [{query: s, value: text}]}]}`,
	`{query: n, action: combine, value: 3, documentIndex: [0]}`,
	`{query: m.a, value: {c: {d: [e]}}, documentIndex: [0, 1]}`,
}

func (g *Gen) failDoc() string {
	s := "m:\n  a: 1 # one\nn: 5\nb: true\ns: text\nlist:\n  - k: v\n    w: x\n  - k: z\n"
	for k := g.n(3); k > 0; k-- {
		s += fmt.Sprintf("extra%d: %s\n", k, g.pick("{}", "[1, 2]", "'quoted'", "|\n  block\n  text", "~"))
	}
	if g.p(10) {
		var b strings.Builder
		for k := 0; k < 1200; k++ {
			fmt.Fprintf(&b, "long%d: some text to make the file longer than the buffers which are used for it\n", k)
		}
		s += b.String()
	}
	return s
}

func (g *Gen) failBase() *failBase {
	f := &failBase{c: &Case{Files: map[string]string{}, Env: map[string]string{}}, file: map[string][]string{}, docs: map[string][]string{}}
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("src/%sf%d.yaml", g.pick("", "", "d/"), i)
		text := ""
		for k := 1 + g.n(3); k > 0; k-- {
			text += "---\n" + g.failDoc()
		}
		f.c.Files[p] = text
		f.sources = append(f.sources, p)
	}
	for k := g.n(4); k > 0; k-- {
		f.common = append(f.common, g.pick(goodOverlays...))
	}
	for _, s := range f.sources {
		for k := g.n(3); k > 0; k-- {
			f.file[s] = append(f.file[s], g.pick(goodOverlays...))
		}
		if g.p(30) {
			f.docs[s] = append(f.docs[s], g.pick(goodOverlays[:7]...))
		}
	}
	f.stdout = g.p(35)
	f.c.Args = []string{"-i", "i.yaml"}
	if f.stdout {
		f.c.Args = append(f.c.Args, "-s")
	} else {
		f.c.Args = append(f.c.Args, "-o", "out")
	}
	if g.p(40) {
		f.c.Files["v.yaml"] = "x: 1\nl: [a, b]\nname: web\n"
		f.c.Args = append(f.c.Args, "-f", "v.yaml")
	}
	if g.p(30) {
		f.c.Files["conf.yaml"] = "indentLevel: 4\n"
		f.c.Args = append(f.c.Args, "--config", "conf.yaml")
	}
	return f
}

func flowList(l []string) string { return strings.Join(l, ", ") }

func (f *failBase) build(g *Gen) *Case {
	var b strings.Builder
	if len(f.common) > 0 {
		b.WriteString("commonOverlays:\n")
		for _, o := range f.common {
			b.WriteString("- " + o + "\n")
		}
	}
	b.WriteString("yamlFiles:\n")
	for _, s := range f.sources {
		b.WriteString("- path: " + s + "\n")
		if len(f.file[s]) > 0 {
			b.WriteString("  overlays: [" + flowList(f.file[s]) + "]\n")
		}
		if len(f.docs[s]) > 0 {
			b.WriteString("  documents:\n  - path: 0\n    overlays: [" + flowList(f.docs[s]) + "]\n")
		}
	}
	for _, d := range f.dirs {
		b.WriteString("- path: " + d + "\n")
	}
	for _, l := range f.extra {
		b.WriteString(l + "\n")
	}
	f.c.Files["i.yaml"] = b.String()
	return f.c
}

// outputs the unbroken run has written.
func outputsOf(r *Result) (l []string) {
	for _, n := range newFiles(r) {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

var brokenOverlays = []string{
	`{query: s, action: explode, value: 1}`,
	`{query: s, action: mergeall, value: 1}`,
	`{query: s, action: merg, value: 1}`,
	`{query: s, action: replaced, value: x}`,
	`{query: s, action: deletes}`,
	`{query: s, action: remove}`,
	`{query: n, action: combined, value: 1}`,
	`{query: s, action: add, value: 1}`,
	`{query: s, action: "merge,replace", value: 1}`,
	`{query: s, action: [], value: 1}`,
	`{query: s, action: 1, value: 1}`,
	`{query: s, action: true, value: 1}`,
	`{query: s, value: 1, onMissing: {action: injected}}`,
	`{query: s, value: 1, onMissing: {action: ignored}}`,
	`{query: s, value: 1, onMissing: {action: create}}`,
	`{query: s, value: 1, onMissing: {action: true}}`,
	`{query: s, value: 1, onMissing: {action: [inject]}}`,
	`{query: s, action: [merge], value: 1}`,
	`{query: s, action: {a: b}, value: 1}`,
	`{query: "$[", value: 1}`,
	`{query: "$.list[?(@.k==", value: 1}`,
	`{query: "$.list[?(@.k=='v')", value: 1}`,
	`{query: "a[[0]]", value: 1}`,
	`{query: ["s", "b["], value: 1}`,
	`{query: [["s"]], value: 1}`,
	`{query: {a: b}, value: 1}`,
	`{query: s, value: 1, documentIndex: x}`,
	`{query: s, value: 1, documentIndex: [0, x]}`,
	`{query: s, value: 1, onMissing: {action: explode}}`,
	`{query: s, value: 1, onMissing: text}`,
	`{query: s, value: 1, documentQuery: text}`,
	`{query: s, value: 1, documentQuery: [{conditions: [{query: "$[", value: 1}]}]}`,
	`{query: s, value: 1, documentQuery: [{conditions: text}]}`,
	`{name: [a], query: s, value: 1}`,
	`just text`,
	`[s]`,
}

var failingOverlays = []string{
	`{query: m, action: combine, value: 1}`,
	`{query: n, action: combine, value: [1]}`,
	`{query: n, action: combine, value: some}`,
	`{query: n, action: combine, value: 1.5}`,
	`{query: b, action: combine, value: maybe}`,
	`{query: "$.list[*]", action: combine, value: x}`,
	`{query: "$.list[*].k", action: combine, value: {}}`,
	`{query: [s, list], action: combine, value: x}`,
}

var badYaml = []string{
	"zz: [1, 2\n", "zz: 'x\n", "zz: \"x\n", "zz: {a: b\n", "zz: *nowhere\n", "zz: a\n  b: c: d\n", "zz: @at\n", "zz: `tick\n", "- x\nzz: 1\n",
	"zz: \"\\q\"\n", "a: 1\n b: 2\n", "zz: %x\n", "zz: !<x\n", "zz: |\n  a\n b\n", "zz: \x01\n", "\xff\xfe\xfd\n",
	// the YAML library panics
	panicYaml[0], panicYaml[1], panicYaml[2], panicYaml[0],
}

var panicYaml = []string{"#c\n- ? %TAG ! x\n- \t", "\n  #c\n- ...\n*a---\n[", "- ---\n}!!x \xef\xef"}

var badTemplates = []string{
	"# {{ .x", "# {{ nofunction 1 }}", "# {{ end }}", "# {{ fail \"no\" }}", "# {{ index .l 99 }}", "# {{ template \"nope\" . }}", "# {{ if .x }}",
	"# {{ range .l }}", "# {{ .x.y.z }}", "# {{ \"unclosed }}", "# {{ atoi }}", "# {{ call .x }}",
}

type breakage struct {
	name string
	do   func(g *Gen, f *failBase) bool // false: does not apply
	post func(g *Gen, f *failBase, c *Case, base *Result) bool
}

func (c *Case) dropArgs(flag string) {
	var r []string
	for i := 0; i < len(c.Args); i++ {
		if c.Args[i] == flag {
			i++
			continue
		}
		r = append(r, c.Args[i])
	}
	c.Args = r
}

// breakFile makes a file unusable: missing, a directory, not readable, or not YAML.
func (g *Gen) breakFile(c *Case, n string, appendOK bool) (string, bool) {
	switch g.n(6) {
	case 0:
		delete(c.Files, n)
		return "missing", true
	case 3:
		delete(c.Files, n)
		if c.Links == nil {
			c.Links = map[string]string{}
		}
		c.Links[n] = g.pick("nowhere", "nowhere/at/all.yaml", path.Base(n))
		return "a link to nothing", true
	case 1:
		delete(c.Files, n)
		c.Dirs = append(c.Dirs, n)
		return "a directory", true
	case 2:
		if c.Mode == nil {
			c.Mode = map[string]uint32{}
		}
		c.Mode[n] = 0
		return "not readable", true
	}
	bad := g.pick(badYaml...)
	old := c.Files[n]
	switch {
	case appendOK && g.p(50):
		c.Files[n] = strings.TrimSuffix(old, "\n") + "\n" + bad
	case strings.HasPrefix(n, "src/") && g.p(70):
		c.Files[n] = strings.TrimSuffix(old, "\n") + "\n---\n" + bad
	default:
		c.Files[n] = bad
	}
	if _, err := parseDocs(c.Files[n]); err == nil {
		return "", false
	}
	return "invalid YAML", true
}

func (f *failBase) place(g *Gen, o string) string {
	s := f.sources[g.n(len(f.sources))]
	ins := func(l []string) []string {
		i := g.n(len(l) + 1)
		return append(append(append([]string{}, l[:i]...), o), l[i:]...)
	}
	switch g.n(3) {
	case 0:
		f.common = ins(f.common)
		return "common overlay"
	case 1:
		f.file[s] = ins(f.file[s])
		return "overlay of a file"
	}
	f.docs[s] = ins(f.docs[s])
	return "overlay of a document"
}

// breakIt breaks one thing; what says what, "" if it did not work out.
func (g *Gen) breakIt(f *failBase, base *Result) (c *Case, what string) {
	kind := g.n(12)
	switch kind {
	case 0: // overlays which are not valid
		o := g.pick(brokenOverlays...)
		what = f.place(g, o) + " " + o
		c = f.build(g)
	case 1: // overlays which cannot be applied to the documents as they are
		o := g.pick(failingOverlays...)
		s := f.sources[g.n(len(f.sources))]
		if g.p(50) {
			f.common = append([]string{o}, f.common...)
		} else {
			f.common = nil
			f.file[s] = append([]string{o}, f.file[s]...)
		}
		what = "overlay which cannot be applied: " + o
		c = f.build(g)
	case 2: // instruction file
		c = f.build(g)
		w, ok := g.breakFile(c, "i.yaml", true)
		if !ok {
			return nil, ""
		}
		what = "instructions: " + w
	case 3: // structure of the instructions
		f.extra = nil
		c = f.build(g)
		bad := g.pick("yamlFiles: text\n", "yamlFiles: {path: src}\n", "yamlFiles: [text]\n", "yamlFiles:\n- path: [src]\n", "yamlFiles:\n- path: src\n  overlays: text\n",
			"yamlFiles:\n- path: src\n  documents: text\n", "yamlFiles:\n- path: src\n  documents: [{path: x}]\n", "commonOverlays: text\nyamlFiles:\n- path: src\n",
			"commonOverlays: {a: b}\nyamlFiles:\n- path: src\n", "just text\n", "- a list\n", "yamlFiles:\n- {path: src, outputPath: [x]}\n", "yamlFiles:\n- {path: src, name: {a: b}}\n")
		c.Files["i.yaml"] = bad
		what = "instructions: " + strings.ReplaceAll(bad, "\n", "; ")
	case 4: // source files
		c = f.build(g)
		w, ok := g.breakFile(c, f.sources[g.n(len(f.sources))], false)
		if !ok || w == "a directory" { // an empty directory has no files to process
			return nil, ""
		}
		what = "source: " + w
	case 5: // a directory of sources
		f.dirs = []string{g.pick("more", "more/", "./more")}
		f.c.Files["more/a.yaml"] = "a: 1\n"
		f.c.Files["more/sub/b.yml"] = "b: 1\n"
		c = f.build(g)
		if g.p(50) {
			c.Mode = map[string]uint32{g.pick("more", "more/sub"): 0}
			what = "directory which is not readable"
		} else {
			w, ok := g.breakFile(c, g.pick("more/a.yaml", "more/sub/b.yml"), false)
			if !ok || w == "missing" || w == "a directory" {
				return nil, ""
			}
			what = "file of a directory: " + w
		}
	case 6: // values
		c = f.build(g)
		c.dropArgs("-f")
		c.Files["v.yaml"] = "x: 1\nl: [a]\n"
		c.Files["v2.yaml"] = "y: 1\n"
		c.Args = append(c.Args, "-f", "v.yaml", "--values-file", "v2.yaml")
		w, ok := g.breakFile(c, g.pick("v.yaml", "v2.yaml"), true)
		if !ok {
			return nil, ""
		}
		what = "values: " + w
	case 7: // template
		t := g.pick(badTemplates...)
		f.extra = []string{t}
		c = f.build(g)
		c.dropArgs("-f")
		c.Files["v.yaml"] = "x: 1\nl: [a]\n"
		c.Args = append(c.Args, "-f", "v.yaml")
		what = "template: " + t
	case 8: // configuration
		c = f.build(g)
		c.dropArgs("--config")
		delete(c.Files, "conf.yaml")
		n := "conf.yaml"
		switch g.n(3) {
		case 0:
			c.Args = append(c.Args, "--config", n)
		case 1:
			c.Env["YOT_CONFIG_FILE"] = n
		default:
			n = g.pick("yot.config", ".yot/yot.config")
		}
		c.Files[n] = "indentLevel: 3\n"
		w, ok := g.breakFile(c, n, true)
		if !ok || n != "conf.yaml" && (w == "missing" || w == "a directory" || w == "a link to nothing") {
			return nil, ""
		}
		what = "configuration " + n + ": " + w
	case 9: // flags
		c = f.build(g)
		bad := [][]string{{"--nope"}, {"-S", "bogus"}, {"--output-style=flow,bogus"}, {"-I", "x"}, {"--indent-level=-1"}, {"-I", "2.5"}, {"--log-level=bogus"}, {"-v=bogus"},
			{"-a", "explode", "-q", "s", "-x", "1"}, {"-q", "$[", "-x", "1"}, {"-q", "a[?(@.b==", "-x", "1"}, {"-q", "s", "-x", "[1"}, {"-q", "s", "-x", "{a: 'b}"},
			{"-q", "s", "-q", "b[", "-x", "1"}, {"--default-on-missing-action", "bogus"}, {"--stdout=maybe"}, {"--remove-comments=x"}, {"positional"}, {"-q"}, {"--config"},
			{"-i", "missing.yaml"}, {"-p", "missing.yaml"}, {"-Z"}, {"-q", "{a: b}", "-x", "1"},
			{"-q", "s", "-x", panicYaml[g.n(2)]}, {"-q", panicYaml[g.n(2)], "-x", "1"}, {"-q", "s", "-x", "1", "-a", panicYaml[g.n(2)]}, {"--default-on-missing-action", panicYaml[g.n(2)]}}[g.n(28)]
		c.Args = append(c.Args, bad...)
		what = "flags: " + strings.Join(bad, " ")
	case 10: // settings in the environment
		c = f.build(g)
		c.Env["YOT_LOG_LEVEL"] = "bogus"
		what = "invalid YOT_LOG_LEVEL"
		if g.p(50) {
			delete(c.Env, "YOT_LOG_LEVEL")
			c.Env["YOT_INDENT_LEVEL"] = "-3"
			what = "negative YOT_INDENT_LEVEL"
			c.dropArgs("--config")
		}
	default: // output
		c = f.build(g)
		if g.p(30) { // of other commands
			c.Args = [][]string{{"env"}, {"env", "YOT_STDOUT"}, {"env", "YOT_OUTPUT_STYLE"}, {"completion", "bash"}, {"completion", "zsh"}, {"completion", "fish"}, {"completion", "powershell"}, {"--version"}}[g.n(8)]
			c.Wrap = []string{"/bin/sh", "-c", `exec "$0" "$@" >/dev/full`}
			return c, "output of another command: standard output is full"
		}
		if f.stdout {
			c.Wrap = []string{"/bin/sh", "-c", `exec "$0" "$@" >/dev/full`}
			return c, "standard output is full"
		}
		outs := outputsOf(base)
		if len(outs) == 0 {
			return nil, ""
		}
		o := outs[g.n(len(outs))]
		switch g.n(7) {
		case 6:
			c.Wrap = []string{"/bin/sh", "-c", `exec "$0" "$@" >/dev/full`}
			what = "standard output, which gets the list of the files, is full"
		case 0:
			c.Files["out"] = "a file where the directory should be\n"
			what = "a file in the place of the output directory"
		case 1:
			c.Dirs = append(c.Dirs, "out")
			c.Mode = map[string]uint32{"out": 0o555}
			what = "an output directory without permission to write"
		case 2:
			c.Dirs = append(c.Dirs, o)
			what = "a directory in the place of an output file"
		case 3:
			c.Files[o] = "older\n"
			c.Mode = map[string]uint32{o: 0o444}
			what = "an output file without permission to write"
		default:
			c.Dirs = append(c.Dirs, path.Dir(o))
			c.Links = map[string]string{o: "/dev/full"}
			what = "a full device"
		}
	}
	return c, what
}

func failCase(t *T) {
	g := t.gen()
	f := g.failBase()
	if g.p(10) {
		f.c.Args = append(f.c.Args, "--remove-comments")
	}
	good := f.build(g).Clone()
	base := t.run(good)
	if base == nil {
		return
	}
	if base.Exit != 0 || base.Crash() != "" {
		// overlays of the pool may conflict with each other
		if strings.TrimSpace(base.Stderr) == "" {
			t.fail(good, base, "fails without a message")
			return
		}
		t.skip("the unbroken case fails")
		return
	}
	c, what := g.breakIt(f, base)
	if c == nil {
		t.skip("not broken")
		return
	}
	if f.stdout && strings.HasPrefix(what, "standard output") && base.Stdout == "" {
		t.skip("no output")
		return
	}
	t.sig(what, c.Files["i.yaml"], c.Args)
	r := t.run(c)
	if r == nil {
		return
	}
	t.count("broken_" + strings.ReplaceAll(strings.SplitN(what, " ", 2)[0], ":", ""))
	if cr := r.Crash(); cr != "" && r.Exit != 2 {
		t.fail(c, r, what+": "+cr)
		return
	}
	if r.Exit == 0 {
		t.fail(c, r, "exit status 0 in spite of: "+what)
		return
	}
	if strings.TrimSpace(r.Stderr) == "" {
		t.fail(c, r, "no message on standard error about: "+what)
	}
}

var straceOnce sync.Once
var straceOK bool

// canTrace tells whether strace works here, for the user yot runs as.
func (t *T) canTrace() bool {
	straceOnce.Do(func() {
		if _, err := exec.LookPath("strace"); err != nil {
			return
		}
		c := &Case{Args: []string{"-p", "f.yaml", "-q", "a", "-x", "2", "-o", "out"}, Files: map[string]string{"f.yaml": "a: 1\n"},
			Wrap: []string{"strace", "-f", "-qq", "-o", "st.log", "-e", "trace=openat", "-P", "f.yaml", "-e", "inject=openat:error=EIO:when=1+"}}
		r, err := t.sb.Run(c)
		straceOK = err == nil && strings.Contains(r.After["st.log"], "INJECTED")
	})
	return straceOK
}

// faultCase lets single system calls of yot fail.
func faultCase(t *T) {
	g := t.gen()
	f := g.failBase()
	if !t.canTrace() {
		t.count("strace_unavailable")
		failCase(t)
		return
	}
	if g.p(30) {
		f.dirs = []string{"more"}
		f.c.Files["more/a.yaml"] = "a: 1\n"
		f.c.Files["more/sub/b.yml"] = "b: 1\n"
	}
	c := f.build(g).Clone()
	toFile := f.stdout
	if toFile {
		c.Wrap = []string{"/bin/sh", "-c", `exec "$0" "$@" >stdout.txt`}
	}
	base := t.run(c)
	if base == nil {
		return
	}
	if base.Exit != 0 {
		t.skip("the case fails without faults")
		return
	}
	t.sig(c.Files["i.yaml"], c.Args)
	want := observable(base)
	type target struct {
		path   string
		call   string
		strict bool
	}
	var ts []target
	inputs := append([]string{"i.yaml"}, f.sources...)
	for _, x := range []string{"v.yaml", "conf.yaml"} {
		if _, ok := c.Files[x]; ok && strings.Contains(strings.Join(c.Args, " "), x) {
			inputs = append(inputs, x)
		}
	}
	for _, i := range inputs {
		ts = append(ts, target{i, "openat", true}, target{i, "read", true}, target{i, "read", true}, target{i, "close", false}, target{i, "newfstatat", false}, target{i, "fstat", false})
	}
	for _, d := range f.dirs {
		ts = append(ts, target{d, "openat", true}, target{d, "getdents64", true}, target{d + "/sub", "getdents64", true}, target{d + "/sub", "openat", true}, target{d + "/a.yaml", "read", true}, target{d + "/sub/b.yml", "openat", true})
	}
	outs := newFiles(base)
	for _, o := range outs {
		if o == "stdout.txt" {
			ts = append(ts, target{o, "write", true}, target{o, "write", true}, target{o, "write", true})
			continue
		}
		ts = append(ts, target{o, "openat", true}, target{o, "write", true}, target{o, "write", true}, target{o, "close", true})
	}
	if !toFile && len(outs) > 0 {
		ts = append(ts, target{"out", "mkdirat", true})
		for d := path.Dir(outs[len(outs)-1]); d != "out" && d != "."; d = path.Dir(d) {
			ts = append(ts, target{d, "mkdirat", true})
		}
	}
	n := 6
	if t.h.tier == "thorough" {
		n = len(ts) * 2
	}
	for k := 0; k < n; k++ {
		x := ts[g.n(len(ts))]
		if t.h.tier == "thorough" {
			x = ts[k%len(ts)]
		}
		errno := map[string][]string{
			"openat": {"EACCES", "EIO", "EMFILE", "ENFILE", "EPERM", "ELOOP", "ENOMEM"}, "read": {"EIO", "EISDIR", "EINVAL"}, "write": {"ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPERM"},
			"close": {"EIO", "ENOSPC", "EDQUOT"}, "mkdirat": {"EACCES", "ENOSPC", "EROFS", "EIO"}, "getdents64": {"EIO"}, "newfstatat": {"EACCES", "EIO"}, "fstat": {"EIO"},
		}[x.call]
		when := "1+"
		if x.call == "read" || x.call == "write" {
			when = g.pick("1+", "1", "2+", "2")
		}
		inj := fmt.Sprintf("inject=%s:error=%s:when=%s", x.call, g.pick(errno...), when)
		c2 := c.Clone()
		c2.Wrap = []string{"strace", "-f", "-qq", "-o", "st.log", "-e", "trace=" + x.call, "-P", x.path, "-P", "./" + x.path, "-P", t.sb.Dir + "/" + x.path, "-e", inj}
		if toFile {
			c2.Wrap = append(c2.Wrap, "/bin/sh", "-c", `exec "$0" "$@" >stdout.txt`)
			if x.path == "stdout.txt" && x.call != "write" {
				continue
			}
		}
		r := t.run(c2)
		if r == nil {
			return
		}
		injected := strings.Count(r.After["st.log"], "INJECTED")
		delete(r.After, "st.log")
		if injected == 0 {
			t.count("fault_not_reached")
			continue
		}
		t.count("fault_" + x.call)
		t.sig(x.path, x.call, inj)
		what := fmt.Sprintf("%s of %s fails (%s)", x.call, x.path, inj)
		if cr := r.Crash(); cr != "" {
			t.fail(c2, r, what+": "+cr)
			return
		}
		if r.Exit != 0 {
			if strings.TrimSpace(r.Stderr) == "" {
				t.fail(c2, r, what+": no message on standard error")
				return
			}
			t.count("fault_reported")
			continue
		}
		if x.strict {
			t.fail(c2, r, what+": exit status 0")
			return
		}
		if got := observable(r); got != want {
			t.fail(c2, r, what+": exit status 0 with another output: "+lineDiff(got, want))
			return
		}
		t.count("fault_without_effect")
	}
}

func init() {
	register(&Prop{id: "C19", quick: 1800, thorough: 24000, level: "fault_enumeration",
		rule:   "two thirds of the cases take a valid use of yot, which is run first, and break one thing of a catalogue (instructions, sources, directories, values, templates, configuration, flags, environment, overlays which cannot be applied, output places); the others let single system calls on one input or output file (openat, read, write, close, mkdirat, getdents64, stat) fail with strace fault injection; each must end with a message and a non-zero status, or, where a failure is harmless, with the complete output; distinct by instructions and kind of failure",
		assume: []string{"without strace only the first kind of cases is run"},
		min:    map[string]int64{"exit_1": 100},
		perCase: func(t *T) {
			if t.idx%3 == 2 {
				faultCase(t)
				return
			}
			failCase(t)
		}})
}
