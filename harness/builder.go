package main

import (
	"errors"
	"fmt"
	"path"
	"strings"

	"gopkg.in/yaml.v3"
)

// Builder makes a scenario step by step: each overlay is generated for the documents as the overlays before it have
// left them, and the ones whose outcome is unspecified are not used.
type Builder struct {
	t      *T
	g      *Gen
	s      *Scenario
	in     *Instr
	files  []*bFile
	opts   mOpts
	forms  []string // what was generated, part of the signature of the case
	common []*mOverlay
}

type bFile struct {
	path  string
	docs  []*Node
	entry *FileEntry
}

func (t *T) builder(g *Gen) *Builder {
	b := &Builder{t: t, g: g, s: &Scenario{Sources: map[string]string{}}, in: &Instr{}}
	b.opts.trace = &mTrace{}
	return b
}

// file adds a source file with n documents.
func (b *Builder) file(p string, n int, mk func() *G) *bFile {
	text, docs := b.g.goodStream(n, mk)
	return b.fileText(p, text, docs)
}

func (b *Builder) fileText(p, text string, docs []*Node) *bFile {
	f := &bFile{path: p, docs: docs, entry: &FileEntry{Path: p}}
	b.s.Sources[p] = text
	b.files = append(b.files, f)
	b.in.Files = append(b.in.Files, f.entry)
	return f
}

// model reads a generated overlay the way an instruction file is read.
func (b *Builder) model(o *Ov) (*mOverlay, error) {
	w := &W{step: 2}
	w.body(b.g.gOv(o), 0)
	d, err := parseDocs(w.b.String())
	if err != nil || len(d) == 0 || len(d[0].Content) == 0 {
		return nil, fmt.Errorf("overlay cannot be read: %v\n%s", err, w.b.String())
	}
	return readOverlay(d[0].Content[0])
}

// try applies an overlay to the documents in its scope and keeps the result if it is specified.
func (b *Builder) try(o *Ov, scope func(f *bFile, i int) bool) error {
	m, err := b.model(o)
	if err != nil {
		return err
	}
	type change struct {
		f *bFile
		i int
		d *Node
	}
	var l []change
	for _, f := range b.files {
		for i, d := range f.docs {
			if !scope(f, i) || m.hasIdx && !contains(m.docIdx, i) {
				continue
			}
			c := cloneNode(d)
			if err := m.applyTo(c, &b.opts); err != nil {
				return err
			}
			if tooLarge(c) {
				return fmt.Errorf("%w: the document gets too large", errUnspecified)
			}
			l = append(l, change{f, i, c})
		}
	}
	for _, c := range l {
		c.f.docs[c.i] = c.d
	}
	return nil
}

// tooLarge tells whether a document has too many nodes, aliases counted as what they stand for.
func tooLarge(n *Node) bool {
	left := 4000
	var walk func(n *Node, depth int)
	walk = func(n *Node, depth int) {
		if left--; left < 0 || depth > 200 {
			return
		}
		if n.Kind == yaml.AliasNode && n.Alias != nil {
			walk(n.Alias, depth+1)
		}
		for _, c := range n.Content {
			walk(c, depth+1)
		}
	}
	walk(n, 0)
	return left < 0
}

func all(*bFile, int) bool { return true }

// inScope lists the documents in scope which are not empty.
func (b *Builder) inScope(scope func(f *bFile, i int) bool) []*Node {
	var l []*Node
	for _, f := range b.files {
		for i, d := range f.docs {
			if scope(f, i) && len(d.Content) > 0 && len(locs(d)) > 0 {
				l = append(l, d)
			}
		}
	}
	return l
}

// addCommon, addFile and addDoc generate an overlay with mk until its outcome is specified; they report success.
func (b *Builder) addOv(scope func(f *bFile, i int) bool, mk func() *Ov) *Ov {
	for k := 0; k < 8; k++ {
		o := mk()
		if o == nil {
			return nil
		}
		err := b.try(o, scope)
		if err == nil {
			b.forms = append(b.forms, b.form(o))
			return o
		}
		if errors.Is(err, errReject) {
			b.t.count("generated_overlay_rejected_by_model")
		}
	}
	return nil
}

func (b *Builder) addCommon(mk func() *Ov) bool {
	if o := b.addOv(all, mk); o != nil {
		b.in.Common = append(b.in.Common, o)
		return true
	}
	return false
}

func (b *Builder) addFile(f *bFile, mk func() *Ov) bool {
	if o := b.addOv(func(x *bFile, i int) bool { return x == f }, mk); o != nil {
		f.entry.Ovs = append(f.entry.Ovs, o)
		return true
	}
	return false
}

func (b *Builder) addDoc(f *bFile, idx int, mk func() *Ov) bool {
	if o := b.addOv(func(x *bFile, i int) bool { return x == f && i == idx }, mk); o != nil {
		f.entry.Docs = append(f.entry.Docs, DocEntry{Idx: idx, Ovs: []*Ov{o}})
		return true
	}
	return false
}

func (b *Builder) form(o *Ov) string {
	w := &W{step: 2}
	w.body(b.g.gOv(o), 0)
	return w.b.String()
}

// done writes the instruction file.
func (b *Builder) done() *Scenario {
	if b.s.IPath == "" {
		b.s.IPath = "i.yaml"
	}
	d := path.Dir(b.s.IPath)
	if d != "." {
		up := strings.Repeat("../", strings.Count(d, "/")+1)
		for _, f := range b.in.Files {
			if !path.IsAbs(f.Path) && !strings.HasPrefix(f.Path, "@/") {
				f.Path = up + f.Path
			}
		}
	}
	b.s.Instr = b.g.instrText(b.in)
	return b.s
}

// merge, replace ... make overlays for one of the documents.
func (b *Builder) pickLoc(docs []*Node, want func(l loc) bool) (*Node, *loc) {
	for k := 0; k < 12; k++ {
		if len(docs) == 0 {
			return nil, nil
		}
		d := docs[b.g.n(len(docs))]
		ls := locs(d)
		if len(ls) == 0 {
			continue
		}
		l := ls[b.g.n(len(ls))]
		if want == nil || want(l) {
			return d, &l
		}
	}
	return nil, nil
}

func isKind(kinds ...yaml.Kind) func(l loc) bool {
	return func(l loc) bool {
		for _, k := range kinds {
			if l.node.Kind == k {
				return true
			}
		}
		return false
	}
}

type ovOpt struct {
	expr    int // percentage of queries with expressions
	multi   int // percentage of overlays with several queries
	want    func(l loc) bool
	value   func(n *Node) *G // value for the picked node
	nocase  bool
	actions []string
}

func (b *Builder) ov(docs []*Node, o ovOpt) *Ov {
	d, l := b.pickLoc(docs, o.want)
	if d == nil {
		return nil
	}
	g := b.g
	r := &Ov{Action: o.actions[g.n(len(o.actions))]}
	root := loc{node: d.Content[0]}
	if g.p(5) && r.Action != "delete" && (o.want == nil || o.want(root)) { // the document as a whole
		l = &root
		r.Query = []string{"$"}
	} else {
		r.Query = []string{g.query(*l, d, o.expr)}
	}
	if g.p(o.multi) {
		more := g.n(2)
		if g.size == 'm' || g.p(4) {
			more = g.n(12)
		}
		for k := 0; k <= more; k++ {
			if d2, l2 := b.pickLoc(docs, o.want); d2 != nil {
				r.Query = append(r.Query, g.query(*l2, d2, o.expr))
			}
		}
	}
	r.List = g.p(20)
	if g.p(15) {
		r.Name = g.pick("overlay "+g.word(6), "overlay "+g.word(6), "the same name", "100%v", "a: [b] #c", "ü \"q\"")
	}
	if r.Action == "delete" {
		if g.p(10) {
			r.Value = sc("ignored")
		}
		return r
	}
	n := l.node
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	vg := *g
	vg.anchors, vg.tags, vg.markers, vg.comments, vg.nullKeys = false, false, false, 0, false
	vg.made = 0
	switch {
	case o.value != nil:
		r.Value = o.value(n)
	case r.Action == "merge":
		depth := 3
		if g.size == 'd' {
			depth = 20
		}
		r.Value = vg.mergeValueFor(n, depth)
	case r.Action == "combine":
		r.Value = b.combineValue(n)
	default:
		r.Value = unmark(vg.node(2))
	}
	g.cid = vg.cid
	if r.Action == "merge" && g.p(40) && !o.nocase {
		r.Action = ""
	}
	return r
}

func (b *Builder) combineValue(n *Node) *G {
	g := b.g
	switch n.ShortTag() {
	case "!!int":
		if g.p(90) {
			return g.quoted(sc(intTexts[g.n(len(intTexts))]))
		}
	case "!!bool":
		if g.p(90) {
			return g.quoted(sc(g.pick("true", "false", "True", "FALSE", "TRUE", "False")))
		}
	}
	if g.p(10) {
		return g.scalar()
	}
	return sc(g.pick(`"-suffix"`, "x", "5", "1.5", "true", `""`, `" y"`, `"%"`, "2020-01-01", `"\n"`, "null", "~", `"é"`, "'quo''te'"))
}

// quoted makes a scalar a string in some of the cases.
func (g *Gen) quoted(x *G) *G {
	if g.p(15) {
		x.raw = g.pick(dquote(x.raw), squote(x.raw))
	}
	return x
}

var intTexts = []string{"1", "0", "-1", "7", "42", "-100", "0x1F", "0o17", "0644", "1_000", "0b101", "+5", "9223372036854775807", "-9223372036854775808", "123456789012345678901234567890", "18446744073709551615", "-0x10", "0xFFFFFFFFFFFFFFFFFF"}

// gOf writes an existing node in a new presentation, aliases are expanded and comments left out.
func (g *Gen) gOf(n *Node) *G {
	if n.Kind == yaml.AliasNode {
		return g.gOf(n.Alias)
	}
	x := &G{}
	switch n.Kind {
	case yaml.MappingNode:
		x.kind = 'm'
		for i := 0; i+1 < len(n.Content); i += 2 {
			x.put(g.gOf(n.Content[i]), g.gOf(n.Content[i+1]))
		}
		x.flow = g.p(40)
		if t := n.ShortTag(); t != "!!map" {
			x.tag = t
		}
	case yaml.SequenceNode:
		x.kind = 's'
		for _, c := range n.Content {
			x.items = append(x.items, g.gOf(c))
		}
		x.flow = g.p(40)
		if t := n.ShortTag(); t != "!!seq" {
			x.tag = t
		}
	default:
		x.kind = 'v'
		switch t := n.ShortTag(); t {
		case "!!str":
			x.raw = dquote(n.Value)
			if g.p(40) && !strings.ContainsAny(n.Value, "\n\r\t\u0085\u2028\u2029\ufeff\x07\x00") {
				x.raw = squote(n.Value)
			}
		case "!!null":
			x.raw = g.pick("null", "~")
		case "!!int", "!!bool", "!!float", "!!timestamp":
			x.raw = n.Value
			if (&Node{Kind: yaml.ScalarNode, Value: n.Value}).ShortTag() != t {
				x.tag = t
				x.raw = dquote(n.Value)
			}
		default:
			x.tag = t
			x.raw = dquote(n.Value)
		}
	}
	return x
}

// mutate changes the data of a value a little.
func (g *Gen) mutate(x *G) *G {
	switch {
	case x.kind == 'v':
		switch {
		case strings.HasPrefix(x.raw, `"`) || strings.HasPrefix(x.raw, "'"):
			inner := strings.Trim(x.raw, `"'`)
			switch {
			case g.p(35) && looksTyped(inner) && inner != "" && inner != "~" && !strings.ContainsAny(inner, `\`):
				x.raw = inner // same text, other type
			case g.p(40) && len(inner) > 1 && isIdent(inner):
				x.raw = dquote(inner[:len(inner)-1])
			default:
				x.raw = dquote(inner + "x")
				if strings.ContainsAny(inner, `\`) {
					x.raw = `"other"`
				}
			}
		case x.raw == "null" || x.raw == "~":
			x.raw = g.pick(`"null"`, `"~"`, `""`, "0", "false")
		default:
			if g.p(50) {
				x.raw = dquote(x.raw)
			} else {
				x.raw = g.pick("4711", `"other"`, "null", "false")
			}
		}
		x.tag = ""
	case len(x.items) == 0:
		if x.kind == 'm' {
			x.kind = 's'
		} else {
			return sc("null")
		}
	default:
		switch g.n(4) {
		case 0:
			i := g.n(len(x.items))
			x.items = append(x.items[:i:i], x.items[i+1:]...)
			if x.kind == 'm' {
				x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
			}
		case 1:
			if x.kind == 'm' {
				x.put(sc("extra-key"), sc("1"))
			} else {
				x.items = append(x.items, sc("extra"))
			}
		default:
			g.mutate(x.items[g.n(len(x.items))])
		}
	}
	return x
}
