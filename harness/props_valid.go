package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"unicode/utf16"
	"unicode/utf8"

	"gopkg.in/yaml.v3"
)

//go:embed pyyaml.py
var pyScript string

// second is a parser which is independent of the one yot uses, running as a process of its own.
type second struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var (
	seconds   = make(chan *second, 16)
	secondMu  sync.Mutex
	secondBad bool
)

func startSecond() *second {
	for _, py := range []string{"/usr/bin/python3", "python3", "/opt/veriftools/pyvenv/bin/python3"} {
		s := &second{cmd: exec.Command(py, "-c", pyScript)}
		in, e1 := s.cmd.StdinPipe()
		out, e2 := s.cmd.StdoutPipe()
		if e1 != nil || e2 != nil || s.cmd.Start() != nil {
			continue
		}
		s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
		if a, err := s.ask("a: &x 1\nb: *x\n"); err == nil && len(a.Docs) == 1 && a.Docs[0] == "m 4\ns \"a\"\ns \"1\"\ns \"b\"\ns \"1\"\n" {
			return s
		}
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	return nil
}

type answer struct {
	Docs  []string `json:"docs"`
	Error string   `json:"error"`
	Limit bool     `json:"limit"`
}

func (s *second) ask(text string) (*answer, error) {
	if _, err := fmt.Fprintf(s.in, "%d\n%s", len(text), text); err != nil {
		return nil, err
	}
	l, err := s.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	a := &answer{}
	return a, json.Unmarshal(l, a)
}

// secondOpinion asks the independent parser, nil if there is none.
func secondOpinion(text string) *answer {
	secondMu.Lock()
	bad := secondBad
	secondMu.Unlock()
	if bad || !utf8.ValidString(text) {
		return nil
	}
	var s *second
	select {
	case s = <-seconds:
	default:
		if s = startSecond(); s == nil {
			secondMu.Lock()
			secondBad = true
			secondMu.Unlock()
			return nil
		}
	}
	a, err := s.ask(text)
	if err != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		return nil
	}
	seconds <- s
	return a
}

func pyString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r < 0x20 || r > 0x7e && r < 0x10000:
			if r == 0x7f {
				b.WriteRune(r)
				continue
			}
			fmt.Fprintf(&b, `\u%04x`, r)
		case r >= 0x10000:
			x, y := utf16.EncodeRune(r)
			fmt.Fprintf(&b, `\u%04x\u%04x`, x, y)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// pyForm is the form in which the independent parser gives a document.
func pyForm(n *Node, active map[*Node]bool, b *strings.Builder) {
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	if b.Len() > 3<<20 {
		return
	}
	if active[n] {
		b.WriteString("<recursive>")
		return
	}
	tag := ""
	if n.Style&yaml.TaggedStyle != 0 {
		tag = n.LongTag()
	}
	switch n.Kind {
	case yaml.ScalarNode:
		fmt.Fprintf(b, "s%s %s\n", tag, pyString(n.Value))
		return
	case yaml.SequenceNode:
		fmt.Fprintf(b, "q%s %d\n", tag, len(n.Content))
	case yaml.MappingNode:
		fmt.Fprintf(b, "m%s %d\n", tag, len(n.Content))
	}
	active[n] = true
	for _, c := range n.Content {
		pyForm(c, active, b)
	}
	delete(active, n)
}

func pyForms(docs []*Node) string {
	var exp []string
	for _, d := range docs {
		var b strings.Builder
		if len(d.Content) > 0 {
			pyForm(d.Content[0], map[*Node]bool{}, &b)
		}
		exp = append(exp, b.String())
	}
	return strings.Join(exp, "---\n")
}

// secondCheck compares what two parsers make of an output.
func (t *T) secondCheck(c *Case, r *Result, what, text string, style yaml.Style) bool {
	docs, err := parseDocs(text)
	if err != nil {
		return true // judged elsewhere
	}
	a := secondOpinion(text)
	if a == nil {
		t.count("no_second_opinion")
		return true
	}
	if a.Limit {
		return true
	}
	// what the library itself makes of these documents
	limited := func() bool {
		for _, st := range []yaml.Style{64, style} {
			for _, ds := range [][]*Node{expandDocs(docs), cloneDocs(docs)} {
				x, err := encodeDocs(ds, st, 2)
				if err != nil {
					return true
				}
				l := secondOpinion(x)
				if l == nil || l.Error != "" {
					return true
				}
				if y, err := parseDocs(x); err != nil || strings.Join(l.Docs, "---\n") != pyForms(y) {
					return true
				}
			}
		}
		return false
	}
	if a.Error != "" {
		if limited() {
			t.count("second_opinion_library_limited")
			return true
		}
		t.fail(c, r, what+" is not valid YAML for an independent parser: "+a.Error)
		return false
	}
	x, y := strings.Join(a.Docs, "---\n"), pyForms(docs)
	if x != y {
		if limited() {
			t.count("second_opinion_library_limited")
			return true
		}
		t.fail(c, r, what+" is read differently by an independent parser: "+lineDiff(x, y))
		return false
	}
	t.count("second_opinions_agree")
	return true
}

// commentLines is the text of all comments of a stream, by line.
func commentLines(text string) map[string]bool {
	m := map[string]bool{}
	docs, err := parseDocs(text)
	if err != nil {
		return m
	}
	for _, d := range docs {
		for _, c := range allComments(d) {
			for _, l := range strings.Split(c, "\n") {
				m[strings.TrimSpace(l)] = true
			}
		}
	}
	return m
}

// validity checks an output by itself: two parsers, aliases, comments.
func (t *T) validity(c *Case, r *Result, what, text string, style yaml.Style, known map[string]bool) bool {
	docs, err := parseDocs(text)
	if err != nil {
		return true // judged by the caller
	}
	if !t.secondCheck(c, r, what, text, style) {
		return false
	}
	if known != nil {
		for l := range commentLines(text) {
			if l != "" && !known[l] {
				t.fail(c, r, fmt.Sprintf("%s has a comment which no input has: %q", what, l))
				return false
			}
			t.count("comment_lines_checked")
		}
	}
	for _, d := range docs {
		t.countAliases(d)
	}
	return true
}

func (t *T) countAliases(n *Node) {
	if n.Kind == yaml.AliasNode {
		t.count("aliases_in_output")
	}
	if n.Anchor != "" {
		t.count("anchors_in_output")
	}
	for _, c := range n.Content {
		t.countAliases(c)
	}
}

var validStyles = []string{"normal", "dq", "sq", "literal", "folded", "flow", "tagged", "n", "t", "fl", "l", "fo"}

func validCase(t *T) {
	g := t.gen()
	g.anchors = true
	g.mergeKeys = g.p(50)
	g.tags = g.p(50)
	g.comments = []int{0, 15, 40}[g.n(3)]
	b := t.builder(g)
	b.sources(2, 3, b.doc)
	judged := t.idx%3 > 0
	b.spread(1+g.n(5), func(docs []*Node) *Ov {
		o := b.ov(docs, ovOpt{expr: 30, multi: 20, actions: []string{"merge", "merge", "replace", "delete", "delete", "combine"}, want: func(l loc) bool {
			// often something with an anchor, or an alias
			return l.node.Anchor != "" || l.node.Kind == yaml.AliasNode || g.p(50)
		}})
		if o != nil && o.Value != nil && g.p(50) {
			g.decorated(o.Value, 35)
		}
		if o != nil && o.Action != "delete" && o.Action != "combine" && g.p(15) {
			q, _ := g.missingPath(docs[g.n(len(docs))])
			o.Query, o.Missing = []string{q}, "inject"
		}
		return o
	})
	// values with anchors and aliases of their own, last
	withAnchors := func() bool {
		return b.addCommonOrLast(func(docs []*Node) *Ov {
			return b.ov(docs, ovOpt{expr: 30, multi: 20, actions: []string{"merge", "replace"}, nocase: true, value: func(n *Node) *G {
				vg := &Gen{r: t.r, maxDepth: 3, width: 4, anchors: true, wild: g.wild, mergeKeys: g.mergeKeys}
				var x *G
				for k := 0; k < 6; k++ {
					vg.names = nil
					if n.Kind == yaml.MappingNode && g.p(50) {
						x = vg.mapping(3)
					} else {
						x = vg.node(3)
					}
					if len(vg.names) > 0 && x.kind != '*' {
						break
					}
				}
				if x.kind == '*' {
					x = newSeq(sc("1"))
				}
				return unmark(x)
			}})
		})
	}
	if g.p(60) {
		if withAnchors() {
			t.count("overlay_values_with_anchors")
		}
		if !judged {
			for k := g.n(3); k > 0; k-- {
				withAnchors()
				b.addCommonOrLast(func(docs []*Node) *Ov {
					return b.ov(docs, ovOpt{expr: 30, multi: 20, actions: []string{"merge", "replace", "delete"}})
				})
			}
		}
	}
	if len(b.forms) == 0 {
		b.forms = append(b.forms, "")
	}
	s := b.done()
	realistic := t.idx%10 == 9
	if realistic {
		s = g.corpusScenario(4)
		judged = true
		t.count("realistic_runs")
	}
	s.Stdout = g.p(60)
	indent := 2
	var style yaml.Style
	if g.p(60) {
		for k := 1 + g.n(2); k > 0; k-- {
			s.Styles = append(s.Styles, validStyles[g.n(len(validStyles))])
		}
		style = styleOf(s.Styles)
	}
	if g.p(50) {
		indent = 2 + g.n(8)
		s.Indent = indent
	}
	t.sig(s.Instr, s.Sources, s.Styles, s.Indent)
	known := commentLines(s.Instr)
	for _, text := range s.Sources {
		for l := range commentLines(text) {
			known[l] = true
		}
	}
	if realistic && strings.Contains(s.Instr, "%") { // comments have markers
		known = nil
	}
	c := s.Case()
	var r *Result
	if judged {
		r = t.judge(s, judgeOpt{strOnly: style&strStyles != 0, style: style, indent: indent})
	} else {
		r = t.run(c)
		if r != nil {
			if cr := r.Crash(); cr != "" {
				t.fail(c, r, cr)
				return
			}
			t.count("judged_for_validity_only")
		}
	}
	if r == nil || r.Exit != 0 || len(t.failed) > 0 {
		return
	}
	texts := map[string]string{}
	if s.Stdout {
		texts["standard output"] = r.Stdout
	} else {
		for _, f := range newFiles(r) {
			texts[f] = r.After[f]
		}
	}
	for n, text := range texts {
		if _, err := parseDocs(text); err != nil {
			if t.counts["library_limited"] > 0 {
				return
			}
			if want, merr := s.Model(t.sb.Dir, &mTrace{}); merr == nil {
				var all []*Node
				limit := false
				for _, w := range want {
					all = append(all, w.Docs...)
					limit = limit || !s.Stdout && t.libraryLimit(w.Docs, nil, err, styleOr(style), indent, canon)
				}
				if limit || t.libraryLimit(all, nil, err, styleOr(style), indent, canon) {
					t.count("library_limited")
					return
				}
			}
			t.fail(c, r, fmt.Sprintf("%s is not valid YAML: %v", n, err))
			return
		}
		if !t.validity(c, r, n, text, styleOr(style), known) {
			return
		}
		t.count("outputs_valid")
	}
}

func styleOr(s yaml.Style) yaml.Style {
	if s == 0 {
		return 64
	}
	return s
}

// addCommonOrLast adds an overlay which takes effect after all others: as an overlay of a documents entry or, if there
// are no overlays of files, as a common one.
func (b *Builder) addCommonOrLast(mk func(docs []*Node) *Ov) bool {
	none := true
	for _, f := range b.files {
		none = none && len(f.entry.Ovs) == 0 && len(f.entry.Docs) == 0
	}
	if none {
		return b.addCommon(func() *Ov { return mk(b.inScope(all)) })
	}
	f := b.files[b.g.n(len(b.files))]
	if len(f.docs) == 0 {
		return false
	}
	if len(f.entry.Docs) == 0 {
		return b.addFile(f, func() *Ov { return mk(b.inScope(func(x *bFile, i int) bool { return x == f })) })
	}
	idx := b.g.n(len(f.docs))
	return b.addDoc(f, idx, func() *Ov { return mk(b.inScope(func(x *bFile, i int) bool { return x == f && i == idx })) })
}

func init() {
	register(&Prop{id: "C27", quick: 6000, thorough: 40000,
		rule:    "a case has sources full of anchors, aliases, merge keys, tags and comments, overlays which delete, replace and merge anchored values and aliases or insert values with anchors and aliases of their own, and any style and indent level; every output must be read the same by the YAML library and by an independent parser (libyaml), have no comment which no input has, and have the data which the model expects (two thirds of the cases); distinct by instructions, sources and presentation",
		assume:  []string{modelTrust, "whether an alias within an inserted value follows a later change of its anchored value is left open: values with anchors come last where the data is judged", "what libyaml cannot read is not judged if it cannot read the library's own rendering of the documents either"},
		min:     map[string]int64{"exit_0": 300, "outputs_valid": 300, "aliases_in_output": 300, "overlay_values_with_anchors": 100, "comment_lines_checked": 300},
		perCase: validCase})
}
