package main

import (
	"fmt"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// rerunCase: what is in the output directory before has no influence on what is written.
func rerunCase(t *T) {
	g := t.gen()
	g.comments = g.n(30)
	g.anchors = g.p(25)
	b := t.manyFiles(g, 4)
	if g.p(30) {
		for _, f := range b.in.Files {
			if g.p(50) {
				f.Out = g.pick("x/", "y/z/", "") + "o-" + fmt.Sprint(g.n(1000)) + ".yaml"
			}
		}
	}
	if g.p(15) { // a large output
		k := 0
		b.file("src/long.yaml", 1, func() *G {
			m := newMap()
			for ; k < 3000; k++ {
				m.set(fmt.Sprintf("key%d", k), qs(g.word(20)))
			}
			return m
		})
	}
	s := b.done()
	if g.p(30) {
		s.Styles = []string{g.pick("dq", "literal", "flow", "tagged")}
	}
	s.OutDir = g.pick("out", "out", "deep/out", "@/abs/out")
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err != nil || collision(want, nil) {
		t.skip("not specified")
		return
	}
	t.sig(s.Instr, s.Sources, s.OutDir)
	c := s.Case()
	r1 := t.run(c)
	if r1 == nil {
		return
	}
	if cr := r1.Crash(); cr != "" || r1.Exit != 0 {
		t.fail(c, r1, fmt.Sprintf("exit status %d, expected success: %s %s", r1.Exit, cr, firstLines(r1.Stderr, 3)))
		return
	}
	first := map[string]string{}
	for _, f := range newFiles(r1) {
		first[f] = r1.After[f]
	}
	same := func(c *Case, r *Result, what string) bool {
		if r == nil {
			return false
		}
		if cr := r.Crash(); cr != "" || r.Exit != 0 {
			t.fail(c, r, fmt.Sprintf("%s: exit status %d, 0 at first: %s %s", what, r.Exit, cr, firstLines(r.Stderr, 3)))
			return false
		}
		for f, text := range first {
			got := r.After[f]
			if l, ok := c.Links[f]; ok {
				if strings.HasPrefix(got, "<link>") {
					got = r.After[strings.TrimPrefix(l, "@/")]
				}
			}
			if got != text {
				t.fail(c, r, fmt.Sprintf("%s: %s differs from the one of a run into an empty directory: %s (%d bytes, %d expected)", what, f, lineDiff(got, text), len(got), len(text)))
				return false
			}
			t.count("files_compared")
		}
		if r.Stdout != r1.Stdout {
			t.fail(c, r, what+": standard output differs: "+lineDiff(r.Stdout, r1.Stdout))
			return false
		}
		return true
	}
	// again, at the same place
	for k := 1 + g.n(2); k > 0; k-- {
		if !same(c, t.again(c), "second run") {
			return
		}
		t.count("second_runs")
	}
	// with other content in the place of the outputs
	c2 := c.Clone()
	for f, text := range first {
		if g.p(15) {
			continue
		}
		var old string
		switch g.n(12) {
		case 8, 9, 10: // of the same size, and nearly the same
			b := []byte(text)
			for k := 1 + g.n(2); k > 0 && len(b) > 0; k-- {
				i := g.n(len(b))
				if g.p(50) {
					i = len(b) - 1 - g.n(len(b)/10+1)
				}
				b[i] ^= 1 + byte(g.n(3))
			}
			old = string(b)
			t.count("outputs_nearly_the_same")
		case 0:
			old = text + "more: " + g.word(20) + "\n"
		case 1:
			old = text + strings.Repeat("filler: of the end\n", 1+g.n(3000))
		case 2:
			old = text[:g.n(len(text)+1)]
		case 3:
			old = ""
		case 4:
			old = strings.Repeat("\x00", g.n(9000))
		case 5:
			old = "---\n---\n" + text
		case 6:
			old = strings.ToUpper(text)
		case 7:
			old = "not: [YAML\n\tat all"
		default:
			old = strings.Repeat("a: 1\n", g.n(2000))
		}
		c2.Files[f] = strings.ReplaceAll(old, "@/", "@ /")
		t.count("outputs_with_former_content")
	}
	c2.Files["out/other.yaml"] = "other: file\n"
	if g.p(20) { // an output which is a link to a file
		for f := range first {
			if old, ok := c2.Files[f]; ok && g.p(50) && !strings.HasPrefix(f, "abs/") && c2.Links[f] == "" {
				n := fmt.Sprintf("former/l%d.yaml", len(c2.Links))
				if c2.Links == nil {
					c2.Links = map[string]string{}
				}
				c2.Files[n] = old
				delete(c2.Files, f)
				c2.Links[f] = "@/" + n
				t.count("outputs_which_are_links")
			}
		}
	}
	r := t.run(c2)
	if !same(c2, r, "with other content in the output directory") {
		return
	}
	if _, mine := first["out/other.yaml"]; !mine && r.After["out/other.yaml"] != "other: file\n" {
		t.fail(c2, r, "another file of the output directory was changed")
		return
	}
	// after a run of something else into the same directory
	if g.p(50) {
		c3 := c.Clone()
		for n, text := range c3.Files {
			if strings.HasPrefix(n, "src/") {
				c3.Files[n] = text + "---\nlonger: than before\nlist: [1, 2, 3]\n"
				if g.p(50) {
					c3.Files[n] = "a: 1\n"
				}
			}
		}
		r3 := t.run(c3)
		if r3 == nil {
			return
		}
		for n, text := range c.Files {
			if strings.HasPrefix(n, "src/") {
				if err := t.sb.rewrite(n, text); err != nil {
					t.h.internal(err.Error())
					return
				}
			}
		}
		if same(c, t.again(c), "after a run with other sources") {
			t.count("runs_after_other_runs")
		}
	}
}

// feedCase: a result fed back through a run without overlays is reproduced.
func feedCase(t *T) {
	g := t.gen()
	g.comments = g.n(40)
	g.anchors = g.p(40)
	g.tags = g.p(25)
	b := t.manyFiles(g, 4)
	s := b.done()
	if g.p(40) {
		s.Styles = []string{g.pick("dq", "sq", "literal", "folded", "flow", "tagged", "normal")}
	}
	if g.p(40) {
		s.Indent = 2 + g.n(8)
	}
	t.sig(s.Instr, s.Sources, s.Styles, s.Indent)
	if _, err := s.Model(t.sb.Dir, &mTrace{}); err != nil {
		t.skip("not specified")
		return
	}
	c1 := s.Case()
	r1 := t.run(c1)
	if r1 == nil || r1.Exit != 0 {
		t.skip("no output")
		return
	}
	s2 := &Scenario{Sources: map[string]string{}, IPath: "i.yaml", Styles: s.Styles, Indent: s.Indent}
	in := &Instr{}
	total := 0
	for _, f := range newFiles(r1) {
		s2.Sources[f] = r1.After[f]
		in.Files = append(in.Files, &FileEntry{Path: f})
		total++
	}
	if total == 0 {
		t.skip("no output")
		return
	}
	dir := g.p(40)
	if dir {
		in.Files = []*FileEntry{{Path: "out"}}
	}
	g.setInstr(s2, in)
	s2.OutDir = "out2"
	style := styleOf(s.Styles)
	c2 := s2.Case()
	r2 := t.judge(s2, judgeOpt{style: style, indent: s.Indent, strOnly: style&strStyles != 0})
	if r2 == nil || r2.Exit != 0 || len(t.failed) > 0 {
		return
	}
	t.addn("results_fed_back", int64(total))
	lim := t.counts["library_limited"] > 0
	// byte for byte where the YAML library itself reproduces the text
	a, bb := newFiles(r1), newFiles(r2)
	if len(a) != len(bb) {
		if !lim {
			t.fail(c2, r2, fmt.Sprintf("%d files from %d", len(bb), len(a)))
		}
		return
	}
	for i := range a {
		x, y := r1.After[a[i]], r2.After[bb[i]]
		if x == y {
			t.count("identical_texts")
			continue
		}
		if strings.Contains(x, "#") || lim {
			t.count("texts_with_comments_not_identical")
			continue
		}
		st, ind := style, s.Indent
		if st == 0 {
			st = 64
		}
		if ind == 0 {
			ind = 2
		}
		d, err := parseDocs(x)
		if err != nil {
			continue
		}
		if lib, err := encodeDocs(d, st, ind); err != nil || lib != x {
			t.count("texts_the_library_does_not_reproduce")
			continue
		}
		t.fail(c2, r2, "a result fed back is not reproduced: "+lineDiff(y, x))
		return
	}
}

// splitCase: overlays in two consecutive runs have the effect of all of them in one.
func splitCase(t *T) {
	g := t.gen()
	g.anchors = t.idx%4 == 0
	b := t.builder(g)
	nf := 1 + g.n(3)
	for i := 0; i < nf; i++ {
		b.file(fmt.Sprintf("src/f%d.yaml", i), 1+g.n(3), b.doc)
	}
	for k := 2 + g.n(5); k > 0; k-- {
		b.addCommon(func() *Ov {
			o := b.ov(b.inScope(all), ovOpt{expr: 25, multi: 15, actions: []string{"merge", "merge", "replace", "combine", "delete"}})
			if o != nil && o.Action != "delete" && o.Action != "combine" && g.p(20) {
				docs := b.inScope(all)
				q, _ := g.missingPath(docs[g.n(len(docs))])
				o.Query, o.Missing = []string{q}, "inject"
			}
			if o != nil && g.p(20) && o.Action == "merge" {
				g.withMarkers(o.Value, true, 40)
			}
			if o != nil && o.Value != nil && g.p(20) {
				g.decorated(o.Value, 30)
			}
			if o != nil && g.p(15) {
				o.HasIdx, o.DocIdx = true, []int{g.n(3)}
			}
			return o
		})
	}
	ovs := b.in.Common
	if len(ovs) < 2 {
		t.skip("too few overlays")
		return
	}
	s := b.done()
	t.sig(s.Instr, s.Sources)
	// indices count the documents of the source, deleted documents would shift them
	for _, f := range b.files {
		for _, d := range f.docs {
			if len(d.Content) == 0 {
				t.skip("a document was deleted")
				return
			}
		}
	}
	s.OutDir = "one"
	r := t.judge(s, judgeOpt{})
	if r == nil || r.Exit != 0 || len(t.failed) > 0 || t.counts["library_limited"] > 0 {
		return
	}
	one := map[string]string{}
	for _, f := range newFiles(r) {
		one[strings.TrimPrefix(f, "one/")] = r.After[f]
	}
	k := 1 + g.n(len(ovs)-1)
	cur := s.Sources
	where := "src"
	var last *Result
	var lastCase *Case
	for i, part := range [][]*Ov{ovs[:k], ovs[k:]} {
		p := &Scenario{Sources: map[string]string{}, IPath: "i.yaml", OutDir: fmt.Sprintf("run%d", i)}
		in := &Instr{Common: part}
		var names []string
		for n, text := range cur {
			p.Sources[n] = text
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			in.Files = append(in.Files, &FileEntry{Path: n})
		}
		_ = where
		g.setInstr(p, in)
		pc := p.Case()
		pr := t.judge(p, judgeOpt{})
		if pr == nil || pr.Exit != 0 || len(t.failed) > 0 || t.counts["library_limited"] > 0 {
			return
		}
		before := countAliases(cur)
		cur = map[string]string{}
		for _, f := range newFiles(pr) {
			cur[f] = pr.After[f]
		}
		// an alias which lost its anchor stands for the same value until it is written, and for a copy afterwards
		if i == 0 && countAliases(cur) != before {
			t.skip("aliases got resolved between the runs")
			return
		}
		last, lastCase = pr, pc
	}
	for n, text := range cur {
		n = strings.TrimPrefix(n, "run1/")
		x, ok := one[n]
		if !ok {
			t.fail(lastCase, last, fmt.Sprintf("after two runs there is %s, which the single run has not written", n))
			return
		}
		a, e1 := parseDocs(text)
		bb, e2 := parseDocs(x)
		if e1 != nil || e2 != nil {
			t.fail(lastCase, last, fmt.Sprintf("%s: %v %v", n, e1, e2))
			return
		}
		if d := cmpDocs(a, bb); d != "" {
			t.fail(lastCase, last, fmt.Sprintf("%s after two runs differs from the one after a single run: %s", n, d))
			return
		}
		t.count("two_runs_compared_to_one")
	}
	if len(cur) != len(one) {
		t.fail(lastCase, last, fmt.Sprintf("%d files after two runs, %d after a single run", len(cur), len(one)))
	}
}

func init() {
	register(&Prop{id: "C26", quick: 1350, thorough: 20000,
		rule:   "a third of the cases runs the same scenario again at the same place, over former content (longer, shorter, empty, not YAML, of another run) and compares all files byte by byte with those of a fresh run; a third feeds the results back through a run without overlays; a third applies a list of overlays in two consecutive runs and in one; distinct by instructions and sources",
		assume: []string{modelTrust, "results fed back are compared byte by byte only if they have no comments and the YAML library itself reproduces the text, else by their data"},
		min:    map[string]int64{"exit_0": 300, "second_runs": 100, "outputs_with_former_content": 200, "results_fed_back": 100, "identical_texts": 80, "two_runs_compared_to_one": 60},
		perCase: func(t *T) {
			switch t.idx % 3 {
			case 0:
				rerunCase(t)
			case 1:
				feedCase(t)
			default:
				splitCase(t)
			}
		}})
}

func countAliases(texts map[string]string) int {
	n := 0
	var walk func(*Node)
	walk = func(c *Node) {
		if c.Kind == yaml.AliasNode {
			n++
		}
		for _, x := range c.Content {
			walk(x)
		}
	}
	for _, x := range texts {
		ds, _ := parseDocs(x)
		for _, d := range ds {
			walk(d)
		}
	}
	return n
}
