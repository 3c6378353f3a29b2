package main

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// Ov is a generated overlay.
type Ov struct {
	Name    string
	Query   []string
	List    bool // query written as a list
	Value   *G
	Action  string // "" is left out
	Groups  [][]Cond
	HasDQ   bool
	Missing string
	Inject  []string
	InjList bool
	DocIdx  []int
	HasIdx  bool
}

type Cond struct {
	Query []string
	Value *G
}

type DocEntry struct {
	Name string
	Idx  int
	Ovs  []*Ov
}

type FileEntry struct {
	Name string
	Path string // as written
	Out  string
	Ovs  []*Ov
	Docs []DocEntry
}

// Instr is a generated instruction file.
type Instr struct {
	Common []*Ov
	Files  []*FileEntry
	Flow   bool
}

func (g *Gen) gQuery(q []string, list bool) *G {
	if len(q) == 1 && !list {
		if g.p(30) && !strings.ContainsAny(q[0], "\n\r\t") {
			return sc(squote(q[0]))
		}
		return qs(q[0])
	}
	s := newSeq()
	for _, x := range q {
		s.items = append(s.items, qs(x))
	}
	s.flow = g.p(50)
	return s
}

func (g *Gen) gOv(o *Ov) *G {
	type kv struct {
		k string
		v *G
	}
	var l []kv
	l = append(l, kv{"query", g.gQuery(o.Query, o.List)})
	if o.Value != nil {
		l = append(l, kv{"value", o.Value})
	}
	if o.Action != "" {
		a := o.Action
		if g.p(10) {
			a = strings.ToUpper(a[:1]) + a[1:]
		}
		l = append(l, kv{"action", sc(a)})
	}
	if o.HasDQ {
		s := newSeq()
		for _, gr := range o.Groups {
			cs := newSeq()
			for _, c := range gr {
				m := newMap().set("query", g.gQuery(c.Query, len(c.Query) > 1))
				if c.Value != nil {
					m.set("value", c.Value)
				}
				cs.items = append(cs.items, m)
			}
			s.items = append(s.items, newMap().set("conditions", cs))
		}
		l = append(l, kv{"documentQuery", s})
	}
	if o.Missing != "" || len(o.Inject) > 0 {
		m := newMap()
		if o.Missing != "" {
			m.set("action", sc(o.Missing))
		}
		if len(o.Inject) > 0 {
			m.set("injectPath", g.gQuery(o.Inject, o.InjList))
		}
		l = append(l, kv{"onMissing", m})
	}
	if o.HasIdx {
		s := newSeq()
		for _, i := range o.DocIdx {
			s.items = append(s.items, sc(fmt.Sprint(i)))
		}
		s.flow = g.p(60)
		l = append(l, kv{"documentIndex", s})
	}
	if o.Name != "" {
		l = append([]kv{{"name", qs(o.Name)}}, l...)
	}
	if g.p(20) {
		g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	m := newMap()
	for _, x := range l {
		m.set(x.k, x.v)
	}
	g.ovGs = append(g.ovGs, m)
	return m
}

// reuse writes parts of overlays, or whole ones, at the top of the instructions, and refers to them by aliases and
// merge keys at their places.
func (g *Gen) reuse(root *G) {
	top := newMap()
	define := func(x *G) *G {
		name := fmt.Sprintf("re%d", len(top.items))
		text := x.flowText()
		for i, y := range top.items { // the same is used again
			if c := *y; c.kind == x.kind && x.anchor == "" {
				if c.anchor = ""; c.flowText() == text && len(c.head) == 0 && len(x.head) == 0 {
					return &G{kind: '*', raw: fmt.Sprintf("re%d", i)}
				}
			}
		}
		if x.anchor != "" {
			return x
		}
		y := *x
		y.anchor = name
		if y.kind == 'v' && y.block == nil && y.raw == "" {
			return x
		}
		top.set("x-"+name, &y)
		return &G{kind: '*', raw: name}
	}
	parts := map[string]bool{"query": true, "documentQuery": true, "onMissing": true, "documentIndex": true, "action": true}
	for _, m := range g.ovGs {
		if g.p(40) {
			continue
		}
		raw := func(i int) string { return m.keys[i].raw }
		switch g.n(4) {
		case 0, 1: // parts
			for i := range m.items {
				if parts[raw(i)] && g.p(50) {
					m.items[i] = define(m.items[i])
				}
			}
		case 2: // a base for merging
			base, rest := newMap(), newMap()
			for i := range m.items {
				if parts[raw(i)] && g.p(60) {
					base.put(m.keys[i], m.items[i])
				} else {
					rest.put(m.keys[i], m.items[i])
				}
			}
			if len(base.items) > 0 && len(rest.items) > 0 {
				a := define(base)
				if a.kind != '*' {
					continue
				}
				k := g.n(len(rest.items) + 1)
				*m = G{kind: 'm'}
				for i := range rest.items {
					if i == k {
						m.put(sc("<<"), a)
					}
					m.put(rest.keys[i], rest.items[i])
				}
				if k == len(rest.items) {
					m.put(sc("<<"), a)
				}
			}
		default: // all of it
			c := *m
			if a := define(&c); a.kind == '*' {
				*m = *a
			}
		}
	}
	if len(top.items) == 0 {
		return
	}
	root.keys = append(top.keys, root.keys...)
	root.items = append(top.items, root.items...)
}

func (g *Gen) gOvs(l []*Ov) *G {
	s := newSeq()
	for _, o := range l {
		s.items = append(s.items, g.gOv(o))
	}
	return s
}

// Text writes the instruction file.
func (g *Gen) instrText(in *Instr) string {
	g.ovGs = nil
	root := newMap()
	if len(in.Common) > 0 {
		root.set("commonOverlays", g.gOvs(in.Common))
	}
	fs := newSeq()
	for _, f := range in.Files {
		m := newMap()
		if f.Name != "" {
			m.set("name", qs(f.Name))
		}
		m.set("path", qs(f.Path))
		if f.Out != "" {
			m.set("outputPath", qs(f.Out))
		}
		if len(f.Ovs) > 0 {
			m.set("overlays", g.gOvs(f.Ovs))
		}
		if len(f.Docs) > 0 {
			ds := newSeq()
			for _, d := range f.Docs {
				dm := newMap()
				if d.Name != "" {
					dm.set("name", qs(d.Name))
				}
				dm.set("path", sc(fmt.Sprint(d.Idx)))
				if len(d.Ovs) > 0 {
					dm.set("overlays", g.gOvs(d.Ovs))
				}
				ds.items = append(ds.items, dm)
			}
			m.set("documents", ds)
		}
		fs.items = append(fs.items, m)
	}
	if len(fs.items) > 0 {
		root.set("yamlFiles", fs)
	}
	if g.p(7) {
		g.reuse(root)
	}
	w := &W{step: 2, inSeq: g.p(50)}
	if g.p(40) {
		w.b.WriteString("---\n")
	}
	if len(root.items) == 0 {
		return "{}\n"
	}
	w.body(root, 0)
	return w.b.String()
}

// Scenario is a complete use of yot whose expected outcome the model can determine.
type Scenario struct {
	Sources   map[string]string // relative to the case directory
	Instr     string            // text of in/i.yaml ("" if there is none)
	IPath     string            // where the instruction file is
	Query     []string
	Value     string
	Action    string
	Path      string // --path as written, relative to the case directory or @/
	Stdin     string
	Inject    bool // default onMissing action inject
	effRemove bool
	effInject bool // the default action is inject, by whatever means
	Remove    bool
	Stdout    bool
	Styles    []string
	Indent    int
	Extra     []string
	Frags     map[string]string // further files, which are no sources
	Env       map[string]string
	OutDir    string
	NoOut     bool   // no -o flag, OutDir says what is in effect
	Cwd       string // working directory, relative to the case directory
	Dirs      []string
	InStdin   bool // the instruction file is read from standard input

	Links map[string]string // symbolic links to sources or directories with sources, relative to the case directory
}

// through lists what can be reached through the symbolic links, with the content it has.
func (s *Scenario) through() map[string]string {
	r := map[string]string{}
	isFile := map[string]bool{}
	for n, t := range s.Links { // to files
		if x, ok := s.Sources[t]; ok {
			r[n], isFile[n] = x, true
		}
	}
	for n, t := range s.Links { // to directories, which may hold links to files
		for k := 0; k < 3 && s.Links[t] != ""; k++ {
			t = s.Links[t]
		}
		if isFile[n] {
			continue
		}
		for f, x := range s.Sources {
			if strings.HasPrefix(f, t+"/") {
				r[n+f[len(t):]] = x
			}
		}
		for f := range isFile {
			if strings.HasPrefix(f, t+"/") {
				r[n+f[len(t):]] = r[f]
			}
		}
	}
	return r
}

func (s *Scenario) Case() *Case {
	c := &Case{Files: map[string]string{}, Stdin: s.Stdin, Env: map[string]string{}, Cwd: s.Cwd, Dirs: s.Dirs}
	if s.Cwd != "" {
		c.Dirs = append([]string{s.Cwd}, s.Dirs...)
	}
	for k, v := range s.Sources {
		c.Files[k] = v
	}
	for k, v := range s.Frags {
		c.Files[k] = v
	}
	for n, t := range s.Links {
		if c.Links == nil {
			c.Links = map[string]string{}
		}
		c.Links[n] = "@/" + t
		if len(n)%2 == 0 {
			c.Links[n] = strings.Repeat("../", strings.Count(n, "/")) + t
		}
	}
	for k, v := range s.Env {
		c.Env[k] = v
	}
	if s.Instr != "" {
		if s.IPath == "" {
			s.IPath = "i.yaml"
		}
		if s.InStdin {
			s.IPath = "-"
			c.Stdin = s.Instr
		} else {
			c.Files[s.IPath] = s.Instr
		}
		up := ""
		if s.Cwd != "" {
			up = strings.Repeat("../", strings.Count(s.Cwd, "/")+1)
		}
		c.Args = append(c.Args, "-i", up+s.IPath)
	}
	for _, q := range s.Query {
		c.Args = append(c.Args, "-q", dquote(q))
	}
	if len(s.Query) > 0 && s.Value != "" {
		c.Args = append(c.Args, "-x", s.Value)
	}
	if s.Action != "" {
		c.Args = append(c.Args, "-a", s.Action)
	}
	if s.Path != "" {
		c.Args = append(c.Args, "-p", s.Path)
	}
	if s.Inject {
		c.Args = append(c.Args, "--default-on-missing-action", "inject")
	}
	if s.Remove {
		c.Args = append(c.Args, "--remove-comments")
	}
	for _, st := range s.Styles {
		c.Args = append(c.Args, "-S", st)
	}
	if s.Indent != 0 {
		c.Args = append(c.Args, "-I", fmt.Sprint(s.Indent))
	}
	if s.Stdout {
		c.Args = append(c.Args, "-s")
	} else {
		if s.OutDir == "" {
			s.OutDir = "out"
		}
		if !s.NoOut {
			c.Args = append(c.Args, "-o", s.OutDir)
		}
	}
	c.Args = append(c.Args, s.Extra...)
	return c
}

// MOut is one output file as the model expects it.
type MOut struct {
	Name string // absolute path
	Docs []*Node
	Src  string
}

// Model determines the outputs. dir is the absolute path of the case directory.
func (s *Scenario) Model(dir string, tr *mTrace) ([]MOut, error) {
	v := vfs{}
	for n, t := range s.Case().Files {
		v[path.Join(dir, n)] = strings.ReplaceAll(t, "@/", dir+"/")
	}
	for n, t := range s.through() {
		v[path.Join(dir, n)] = strings.ReplaceAll(t, "@/", dir+"/")
	}
	in := &mInstr{}
	idir := ""
	if s.Instr != "" {
		var err error
		idir = path.Dir(path.Join(dir, s.IPath))
		if in, err = readInstr(strings.ReplaceAll(s.Instr, "@/", dir+"/"), idir); err != nil {
			return nil, err
		}
	}
	if err := in.expand(v); err != nil {
		return nil, err
	}
	in.dedup()
	if s.Path != "" {
		f := &mFile{path: s.Path}
		if s.Path == "-" {
			f.out = "stdin.yaml"
		} else {
			f.path = strings.ReplaceAll(f.path, "@/", dir+"/")
			if !path.IsAbs(f.path) {
				b := idir
				if b == "" {
					b = path.Join(dir, s.Cwd)
				}
				f.path = path.Join(b, f.path)
			}
			f.path = path.Clean(f.path)
		}
		add := &mInstr{files: []*mFile{f}}
		if err := add.expand(v); err != nil {
			return nil, err
		}
		in.files = append(in.files, add.files...)
		in.dedup()
	}
	if len(s.Query) > 0 {
		q := newSeq()
		for _, x := range s.Query {
			q.items = append(q.items, qs(x))
		}
		w := &W{step: 2}
		w.body(newMap().set("query", q), 0)
		d, err := parseDocs(w.b.String())
		if err != nil {
			return nil, fmt.Errorf("%w: query", errReject)
		}
		o, err := readOverlay(d[0].Content[0])
		if err != nil {
			return nil, err
		}
		if s.Action != "" {
			o.action = strings.ToLower(s.Action)
		}
		vd, err := parseDocs(s.Value)
		if err != nil {
			return nil, fmt.Errorf("%w: value", errReject)
		}
		if len(vd) > 0 && len(vd[0].Content) > 0 {
			o.value = vd[0].Content[0]
		}
		in.common = append(in.common, o)
	}
	in.outputs()
	opt := &mOpts{inject: s.Inject || s.effInject, removeComments: s.Remove || s.effRemove, trace: tr}
	outDir := s.OutDir
	if outDir == "" {
		outDir = "out"
	}
	outDir = strings.Replace(outDir, "@/", dir+"/", 1)
	if !path.IsAbs(outDir) {
		outDir = path.Join(dir, s.Cwd, outDir)
	}
	var outs []MOut
	for _, f := range in.files {
		text := s.Stdin
		if f.path != "-" {
			text = v[f.path]
		}
		docs, err := parseDocs(text)
		if err != nil {
			return nil, fmt.Errorf("%w: source: %v", errReject, err)
		}
		f.nodes = docs
		tr.Files++
	}
	for _, f := range in.files {
		if err := in.apply(f, opt); err != nil {
			return nil, err
		}
		o := MOut{Name: f.out, Docs: dropEmpty(f.nodes), Src: f.path}
		if !path.IsAbs(o.Name) {
			o.Name = path.Join(outDir, o.Name)
		}
		outs = append(outs, o)
	}
	return outs, nil
}

// values for overlays

func (g *Gen) ovGen() *Gen {
	o := *g
	o.anchors, o.tags, o.markers, o.comments = false, false, false, 0
	return &o
}

// safeText makes sure that a generated value has no format markers.
func unmark(x *G) *G {
	fix := func(s string) string {
		return strings.ReplaceAll(s, "%", "pct")
	}
	x.raw = fix(x.raw)
	for i := range x.block {
		x.block[i] = fix(x.block[i])
	}
	for _, k := range x.keys {
		unmark(k)
	}
	for _, v := range x.items {
		unmark(v)
	}
	return x
}

// overlapping map: a value to be merged into n, with some of its keys.
func (g *Gen) mergeValueFor(n *Node, depth int) *G {
	switch n.Kind {
	case yaml.MappingNode:
		if g.p(85) {
			m := newMap()
			used := map[string]bool{}
			cnt := g.n(4) + 1
			if g.size == 'w' && g.p(50) {
				cnt += g.n(20)
			}
			for i := 0; i < cnt; i++ {
				if len(n.Content) >= 2 && (g.p(60) || g.size == 'd' && g.p(60)) {
					j := 2 * g.n(len(n.Content)/2)
					k := n.Content[j]
					if used[k.Value] || k.Kind != yaml.ScalarNode || strings.Contains(k.Value, "%") || k.Tag == "!!null" || k.Tag == "!!merge" {
						continue
					}
					used[k.Value] = true
					kt := dquote(k.Value)
					if k.Tag != "!!str" {
						kt = k.Value
					}
					m.put(sc(kt), g.mergeValueFor(n.Content[j+1], depth-1))
				} else {
					k := g.key(used)
					if used["node:"+k.raw] || g.hasKey(n, k.raw) {
						continue
					}
					m.put(unmark(k), unmark(g.node(max0(depth-1))))
				}
			}
			if len(m.items) == 0 {
				m.set("newkey", sc("newval"))
			}
			m.flow = g.p(15)
			return m
		}
	case yaml.SequenceNode:
		if g.p(85) {
			s := g.sequence(max0(depth - 1))
			if g.p(25) && len(n.Content) > 0 { // repeat an existing scalar item
				if c := n.Content[g.n(len(n.Content))]; c.Kind == yaml.ScalarNode && c.Tag == "!!str" && !strings.Contains(c.Value, "%") {
					s.items = append(s.items, sc(dquote(c.Value)))
				}
			}
			if len(s.items) == 0 {
				s.items = append(s.items, sc("added"))
			}
			return unmark(s)
		}
	}
	return g.nonEmpty(depth)
}

func (g *Gen) nonEmpty(depth int) *G {
	for {
		x := g.node(max0(depth))
		if x.kind == '*' || x.kind != 'v' && len(x.items) == 0 {
			continue
		}
		return unmark(x)
	}
}

func (g *Gen) hasKey(n *Node, raw string) bool {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == strings.Trim(raw, `"`) {
			return true
		}
	}
	return false
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

// judge runs a scenario and compares the outputs with the model.
func (t *T) judge(s *Scenario, o judgeOpt) *Result {
	c := s.Case()
	var tr mTrace
	want, merr := s.Model(t.sb.Dir, &tr)
	if errors.Is(merr, errUnspecified) && !o.runUnspecified {
		t.skip(merr.Error())
		return nil
	}
	if errors.Is(merr, errReject) && o.skipReject {
		t.skip(merr.Error())
		return nil
	}
	r := t.run(c)
	if r == nil {
		return nil
	}
	if cr := r.Crash(); cr != "" {
		t.fail(c, r, "crash: "+cr)
		return r
	}
	if errors.Is(merr, errUnspecified) {
		return r
	}
	if errors.Is(merr, errReject) {
		t.count("rejected")
		if r.Exit == 0 {
			t.fail(c, r, "exit status 0, but this run has to fail: "+merr.Error())
		}
		return r
	}
	t.trace.add(tr)
	if strings.Contains(s.Instr, "*re0") {
		t.count("aliases_in_instructions")
	}
	if merr != nil {
		t.skip("model: " + merr.Error())
		return r
	}
	if r.Exit != 0 {
		t.fail(c, r, fmt.Sprintf("exit status %d, expected success: %s", r.Exit, firstLines(r.Stderr, 3)))
		return r
	}
	if s.Stdout {
		var all []*Node
		for _, w := range want {
			all = append(all, w.Docs...)
		}
		t.compareText(c, r, "standard output", r.Stdout, all, s, o)
		return r
	}
	// files
	exp := map[string]bool{}
	for _, w := range want {
		if len(w.Docs) == 0 {
			if _, ok := r.fileAt(w.Name, t.sb.Dir); ok && !o.reuse {
				t.fail(c, r, "file "+w.Name+" has no documents left and must not be written")
			}
			continue
		}
		text, ok := r.fileAt(w.Name, t.sb.Dir)
		if !ok {
			t.fail(c, r, fmt.Sprintf("output %s of %s is missing, there are: %s", rel(w.Name, t.sb.Dir), rel(w.Src, t.sb.Dir), strings.Join(newFiles(r), " ")))
			return r
		}
		exp[rel(w.Name, t.sb.Dir)] = true
		t.compareText(c, r, rel(w.Name, t.sb.Dir), text, w.Docs, s, o)
	}
	if !o.reuse {
		for _, f := range newFiles(r) {
			if !exp[f] {
				t.fail(c, r, "unexpected file "+f)
			}
		}
	}
	return r
}

func rel(p, dir string) string { return strings.TrimPrefix(p, dir+"/") }

func (r *Result) fileAt(abs, dir string) (string, bool) {
	t, ok := r.After[rel(abs, dir)]
	return t, ok
}

func newFiles(r *Result) []string {
	var l []string
	for n := range r.After {
		if _, ok := r.Before[n]; !ok && !strings.HasSuffix(n, "/") {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

type judgeOpt struct {
	comments       bool // compare comments as well
	runUnspecified bool
	skipReject     bool
	reuse          bool // the output directory had content before
	strOnly        bool // compare texts and structure only
	style          yaml.Style
	indent         int
}

// compareText compares the text of an output with the expected documents.
func (t *T) compareText(c *Case, r *Result, what, text string, want []*Node, s *Scenario, o judgeOpt) {
	got, err := parseDocs(text)
	f := canon
	if o.strOnly {
		f = canonStr
	}
	style := yaml.Style(64)
	if o.style != 0 {
		style = o.style
	}
	indent := 2
	if o.indent != 0 {
		indent = o.indent
	}
	if err == nil {
		t.outDocs += int64(len(got))
		if d := cmpBy(got, want, f); d != "" {
			// is it the YAML library which cannot write this document?
			if lib := t.libraryLimit(want, got, nil, style, indent, f); lib {
				t.count("library_limited")
				return
			}
			t.fail(c, r, what+": "+d)
			return
		}
		if o.comments {
			t.compareComments(c, r, what, got, want)
		}
		return
	}
	if t.libraryLimit(want, nil, err, style, indent, f) {
		t.count("library_limited")
		return
	}
	t.fail(c, r, fmt.Sprintf("%s is not valid YAML: %v", what, err))
}

// compareComments compares the comments with what the library makes of the expected ones when it writes and reads them.
func (t *T) compareComments(c *Case, r *Result, what string, got, want []*Node) {
	list := func(docs []*Node) (l []string) {
		for i := range docs {
			l = append(l, fmt.Sprintf("[doc %d]", i))
			l = append(l, commentsOf(docs[i])...)
		}
		return
	}
	g := strings.Join(list(got), "\n")
	diff, ok := "", false
	for _, exp := range [][]*Node{cloneDocs(want), resolveDocs(want), expandDocs(want)} {
		wt, e1 := encodeDocs(exp, 64, 2)
		wd, e2 := parseDocs(wt)
		if e1 != nil || e2 != nil || len(wd) != len(want) {
			continue
		}
		w := list(wd)
		d := lineDiff(g, strings.Join(w, "\n"))
		if d == "no difference" {
			t.comments += int64(len(w) - len(wd))
			return
		}
		if !ok {
			diff, ok = d, true
		}
	}
	if !ok {
		t.count("library_limited")
		return
	}
	t.fail(c, r, what+": comments: "+diff)
}

// libraryLimit tells whether the YAML library alone, writing and reading the expected documents, ends up with the
// same unexpected result.
func (t *T) libraryLimit(want, got []*Node, perr error, style yaml.Style, indent int, f func(*Node) string) bool {
	wt, err := encodeDocs(expandDocs(want), style, indent)
	if err != nil {
		return perr != nil
	}
	wd, err := parseDocs(wt)
	if perr != nil {
		return err != nil
	}
	if err != nil {
		return false
	}
	if len(wd) != len(want) || len(got) != len(want) {
		d := cmpBy(got, wd, f)
		return d == ""
	}
	for i := range got {
		if g := f(got[i]); g != f(want[i]) && g != f(wd[i]) {
			if t.h.verbose {
				fmt.Printf("library round trip: document %d: %s\n%s\n", i, lineDiff(g, f(wd[i])), wt)
			}
			return false
		}
	}
	return true
}
