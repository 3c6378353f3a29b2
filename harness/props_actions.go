package main

import (
	"fmt"
	"path"
	"strings"

	"gopkg.in/yaml.v3"
)

const modelTrust = "trusted: the YAML library's parser (both sides of the comparison) and the JSONPath library's evaluation of a query; a difference which the YAML library alone produces when it writes and reads the expected documents is counted as library_limited and not judged"

// docsFor makes the sources of a case: one to three files.
func (b *Builder) sources(maxFiles, maxDocs int, mk func() *G) {
	n := 1
	if b.g.p(25) {
		n = 1 + b.g.n(maxFiles)
	}
	if b.g.size == 'm' && b.g.p(30) {
		n = 4 + b.g.n(16)
	}
	for i := 0; i < n; i++ {
		k := 1
		if b.g.p(45) {
			k = 1 + b.g.n(maxDocs)
		}
		if b.g.size == 'm' && b.g.p(40) {
			k = 3 + b.g.n(20)
		}
		p := fmt.Sprintf("src/f%d.yaml", i)
		if b.g.p(15) {
			p = fmt.Sprintf("src/sub%d/f.yml", i)
		}
		b.file(p, k, mk)
	}
	if b.g.p(1) && b.g.p(25) {
		b.file("src/large.yaml", 1, b.g.large)
		b.t.count("large_files")
	}
}

// large is a document of up to some megabytes.
func (g *Gen) large() *G {
	m := newMap()
	size := 1 << uint(14+g.n(9))
	if g.p(20) {
		return m.set("text", qs(strings.Repeat("0123456789abcde ", size/16)+"x")).set("last", sc("1"))
	}
	n := 20 + g.n(300)
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("%d:", i) + strings.Repeat("the quick brown fox ", size/n/20)
		switch i % 4 {
		case 0:
			m.put(sc(fmt.Sprintf("k%d", i)), &G{kind: 'v', raw: "|", block: strings.SplitAfter(strings.TrimSpace(t), "lazy")})
		case 1:
			m.set(fmt.Sprintf("k%d", i), newSeq(qs(t), sc("1")))
		default:
			m.set(fmt.Sprintf("k%d", i), qs(t))
		}
	}
	return m.set("last", sc("1"))
}

func (b *Builder) doc() *G {
	if b.g.size != 'w' && b.g.size != 'd' && b.g.p(30) {
		return b.g.k8s()
	}
	return b.g.document()
}

// place adds an overlay as a common, file or document overlay.
func (b *Builder) finish(t *T, jo judgeOpt) {
	if len(b.forms) == 0 {
		t.skip("no overlay with a specified outcome was found")
		return
	}
	b.s.Stdout = b.g.p(40)
	if b.g.p(15) {
		b.deliver()
	}
	if b.g.p(12) {
		b.present()
	}
	s := b.done()
	t.sig(s.Instr, s.Sources)
	t.judge(s, jo)
}

// deliver hands the inputs over in another way than by files which the instruction file lists.
func (b *Builder) deliver() {
	g := b.g
	how := g.n(4)
	if how == 0 {
		if b.s.IPath == "" && b.s.Cwd == "" && b.s.Path == "" {
			b.s.InStdin = true
			b.t.count("instructions_from_stdin")
		}
		return
	}
	if how == 1 {
		if b.s.Instr == "" && len(b.s.Extra) == 0 && !strings.Contains(b.g.instrText(b.in), "{{") {
			b.s.Sources["values.yaml"] = g.pick("{}\n", "a: 1\n", "list: [a, b]\nm: {k: v}\n")
			b.s.Extra = append(b.s.Extra, "-f", "values.yaml")
			b.t.count("instructions_with_values")
		}
		return
	}
	if b.s.Path != "" {
		return
	}
	for i, e := range b.in.Files {
		if len(e.Ovs)+len(e.Docs) > 0 || e.Out != "" || b.s.Sources[e.Path] == "" {
			continue
		}
		for k, o := range b.in.Files {
			if k != i && strings.Contains(o.Path, path.Base(e.Path)) {
				return
			}
		}
		b.in.Files = append(b.in.Files[:i:i], b.in.Files[i+1:]...)
		if how == 2 {
			b.s.Path = "@/" + e.Path
			b.t.count("by_path_flag")
			return
		}
		b.s.Path = "-"
		b.s.Stdin = b.s.Sources[e.Path]
		b.t.count("by_stdin")
		return
	}
}

// present writes sources in a way which does not change what they contain.
func (b *Builder) present() {
	g := b.g
	alter := func(s string) string {
		n := s
		switch g.n(5) {
		case 0:
			n = strings.ReplaceAll(s, "\n", "\r\n")
		case 1:
			n = "\ufeff" + s
		case 2:
			n = s + "...\n"
		case 3:
			n = "%YAML 1.1\n---\n" + strings.TrimPrefix(s, "---\n")
		default:
			n = strings.TrimSuffix(s, "\n")
		}
		d, err := parseDocs(n)
		if err != nil {
			return s
		}
		o, err := parseDocs(s)
		if err != nil || cmpDocs(o, d) != "" {
			return s
		}
		b.t.count("presented_differently")
		return n
	}
	for _, f := range b.files {
		if f.path != "" && b.s.Sources[f.path] != "" {
			b.s.Sources[f.path] = alter(b.s.Sources[f.path])
		}
	}
	if b.s.Stdin != "" {
		b.s.Stdin = alter(b.s.Stdin)
	}
}

// spread adds count overlays: first common ones, then ones of files, then ones of documents.
func (b *Builder) spread(count int, mk func(docs []*Node) *Ov) {
	if b.g.size == 'm' && b.g.p(50) {
		count += b.g.n(30)
	}
	nc := b.g.n(count + 1)
	for i := 0; i < nc; i++ {
		b.addCommon(func() *Ov { return mk(b.inScope(all)) })
	}
	for i := nc; i < count; i++ {
		f := b.files[b.g.n(len(b.files))]
		if len(f.docs) > 0 && b.g.p(25) {
			// documents entries come after the overlays of the file
			continue
		}
		b.addFile(f, func() *Ov { return mk(b.inScope(func(x *bFile, i int) bool { return x == f })) })
	}
	for _, f := range b.files {
		for k := 0; k < 2 && len(f.docs) > 0 && b.g.p(30); k++ {
			idx := b.g.n(len(f.docs))
			b.addDoc(f, idx, func() *Ov { return mk(b.inScope(func(x *bFile, i int) bool { return x == f && i == idx })) })
		}
	}
}

func (t *T) actionCase(mut func(b *Builder), o ovOpt, max int, jo judgeOpt) {
	g := t.gen()
	b := t.builder(g)
	if t.idx%5 == 4 { // they are not compared here, but may make a difference
		g.comments = 20
	}
	if mut != nil {
		mut(b)
	}
	b.sources(3, 3, b.doc)
	b.spread(1+g.n(max), func(docs []*Node) *Ov { return b.ov(docs, o) })
	b.finish(t, jo)
}

func init() {
	register(&Prop{id: "C01", quick: 6000, thorough: 40000,
		rule:   "a case is a generated set of sources and overlays, mostly merges of mappings and scalars (nested, several matches, kind mismatches, aliases in the source), judged against the reference model; non-trivial if at least one overlay has a specified outcome and the run was compared; distinct by instruction text and sources",
		assume: []string{modelTrust},
		min:    map[string]int64{"exit_0": 100},
		perCase: func(t *T) {
			t.actionCase(func(b *Builder) {
				b.g.anchors = t.idx%3 == 0
				b.g.tags = t.idx%5 == 0
				b.g.mergeKeys = t.idx%6 == 0
				b.g.maxDepth = 4
			}, ovOpt{expr: 35, multi: 15, actions: []string{"merge"}, want: func(l loc) bool {
				return l.node.Kind != yaml.SequenceNode || t.r.Intn(5) == 0
			}, value: func(n *Node) *G {
				g := &Gen{r: t.r, maxDepth: 3, width: 3, wild: t.r.Intn(2) == 0}
				return unmark(g.deepMergeValue(n, 4))
			}}, 4, judgeOpt{})
		}})

	register(&Prop{id: "C02", quick: 4800, thorough: 30000,
		rule:   "a case merges sequences (of scalars, mappings, sequences, repeated items) into generated places, mostly sequences, at the top of the value or nested in mappings, sometimes several times in a row; distinct by instruction text and sources",
		assume: []string{modelTrust},
		min:    map[string]int64{"exit_0": 100},
		perCase: func(t *T) {
			t.actionCase(func(b *Builder) {
				b.g.anchors = t.idx%4 == 0
			}, ovOpt{expr: 30, multi: 10, actions: []string{"merge"}, want: func(l loc) bool {
				if l.node.Kind == yaml.SequenceNode {
					return true
				}
				if l.node.Kind == yaml.MappingNode {
					for i := 1; i < len(l.node.Content); i += 2 {
						if l.node.Content[i].Kind == yaml.SequenceNode {
							return true
						}
					}
				}
				return t.r.Intn(12) == 0
			}, value: func(n *Node) *G {
				g := &Gen{r: t.r, maxDepth: 3, width: 4, wild: t.r.Intn(2) == 0}
				if n.Kind == yaml.MappingNode {
					m := newMap()
					for i := 0; i+1 < len(n.Content); i += 2 {
						k := n.Content[i]
						if n.Content[i+1].Kind == yaml.SequenceNode && k.Tag == "!!str" && !strings.Contains(k.Value, "%") {
							m.put(sc(dquote(k.Value)), g.seqValueFor(n.Content[i+1]))
						}
					}
					if len(m.items) > 0 {
						return m
					}
				}
				return g.seqValueFor(n)
			}}, 4, judgeOpt{})
		}})

	register(&Prop{id: "C03", quick: 6000, thorough: 40000,
		rule:   "a case replaces the matches of queries (wildcards, recursive descent, filters, slices, unions, several queries) with values of every kind, anchors, aliases and tags included in a part of the cases; distinct by instruction text and sources",
		assume: []string{modelTrust},
		min:    map[string]int64{"exit_0": 100},
		perCase: func(t *T) {
			t.actionCase(func(b *Builder) {
				b.g.anchors = t.idx%3 == 0
				b.g.tags = t.idx%4 == 0
			}, ovOpt{expr: 60, multi: 30, actions: []string{"replace"}, value: func(n *Node) *G {
				g := &Gen{r: t.r, maxDepth: 3, width: 4, wild: t.r.Intn(2) == 0, tags: t.r.Intn(3) == 0}
				switch g.n(8) {
				case 0:
					return newMap()
				case 1:
					return newSeq()
				case 2:
					return sc("null")
				case 3:
					x := g.gOf(n)
					return g.mutate(x)
				case 4: // the same entries in another order
					x := g.gOf(n)
					if x.kind == 'v' {
						return g.quoted(x)
					}
					for k := g.n(3); k > 0 && len(x.items) > 0; k-- {
						i := g.n(len(x.items))
						x.items[i] = g.mutate(x.items[i])
					}
					g.r.Shuffle(len(x.items), func(i, j int) {
						x.items[i], x.items[j] = x.items[j], x.items[i]
						if x.kind == 'm' {
							x.keys[i], x.keys[j] = x.keys[j], x.keys[i]
						}
					})
					return x
				}
				return g.node(3)
			}}, 4, judgeOpt{})
		}})

	register(&Prop{id: "C04", quick: 6000, thorough: 40000,
		rule:   "a case deletes the matches of generated queries (several, overlapping, nested, adjacent, the document itself), mixed with other actions in a part of the cases; distinct by instruction text and sources",
		assume: []string{modelTrust},
		min:    map[string]int64{"exit_0": 100},
		perCase: func(t *T) {
			acts := []string{"delete"}
			if t.idx%4 == 0 {
				acts = []string{"delete", "delete", "merge", "replace"}
			}
			g := t.gen()
			g.anchors = t.idx%5 == 0
			if g.width < 5 {
				g.width = 5
			}
			b := t.builder(g)
			b.sources(3, 4, b.doc)
			b.spread(1+g.n(4), func(docs []*Node) *Ov {
				if g.p(12) {
					return &Ov{Query: []string{g.pick("$", "$", "$..")}, Action: "delete", HasIdx: true, DocIdx: []int{g.n(4)}}
				}
				o := b.ov(docs, ovOpt{expr: 55, multi: 45, actions: acts})
				if o != nil && o.Action == "delete" && g.p(20) {
					// a child of something which is deleted, and the same place twice
					o.Query = append(o.Query, o.Query[0])
				}
				if o != nil && o.Action == "delete" && g.p(10) {
					if d, l := b.pickLoc(docs, isKind(yaml.MappingNode, yaml.SequenceNode)); d != nil {
						o.Query = append(o.Query, g.exactPathSafe(l.steps), g.exactPathSafe(l.steps)+".*")
					}
				}
				return o
			})
			b.finish(t, judgeOpt{})
		}})

	register(&Prop{id: "C05", quick: 6000, thorough: 40000,
		rule:    "a case combines pairs of scalars (integers of all notations and sizes, booleans, strings, nulls, floats, timestamps), once or repeatedly, or something impossible which must be rejected; distinct by instruction text and sources",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100, "rejected": 20},
		perCase: combineCase})

	register(&Prop{id: "C06", quick: 2400, thorough: 25000,
		rule:    "a case passes generated streams (all scalar forms, styles, anchors, tags, comments, several documents, deep or wide documents) through yot, without overlays or with overlays which select something else, and compares every document with the source; distinct by sources and instructions",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100},
		perCase: passThrough})
}

// deepMergeValue makes a mapping which reaches deep into an existing one.
func (g *Gen) deepMergeValue(n *Node, depth int) *G {
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	if n.Kind == yaml.MappingNode && g.p(90) && depth > 0 {
		m := newMap()
		used := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i]
			if k.Kind == yaml.AliasNode { // the key is the value of the alias, not the name of its anchor
				if g.p(25) && !used[k.Value] {
					used[k.Value] = true
					m.put(sc(k.Value), g.node(1))
					continue
				}
				k = k.Alias
			}
			if !g.p(45) || k.Kind != yaml.ScalarNode || strings.Contains(k.Value, "%") || used[k.Value] {
				continue
			}
			if k.ShortTag() == "!!merge" || k.ShortTag() == "!!null" {
				continue
			}
			used[k.Value] = true
			kt := dquote(k.Value)
			if k.ShortTag() != "!!str" {
				kt = k.Value
			}
			m.put(sc(kt), g.deepMergeValue(n.Content[i+1], depth-1))
		}
		for i := g.n(3); i >= 0; i-- {
			k := g.key(used)
			if g.hasKey(n, k.raw) || k.raw == "~" || k.raw == "null" {
				continue
			}
			m.put(k, g.node(max0(depth-2)))
		}
		if len(m.items) > 1 && g.p(40) {
			g.r.Shuffle(len(m.items), func(i, j int) {
				m.items[i], m.items[j] = m.items[j], m.items[i]
				m.keys[i], m.keys[j] = m.keys[j], m.keys[i]
			})
		}
		if len(m.items) > 0 {
			m.flow = g.p(15)
			return m
		}
	}
	if (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && g.p(20) { // nothing to merge
		if n.Kind == yaml.MappingNode {
			return newMap()
		}
		return newSeq()
	}
	return g.mergeValueFor(n, 2)
}

func (g *Gen) seqValueFor(n *Node) *G {
	s := newSeq()
	for i := 0; i <= g.n(4); i++ {
		switch {
		case n.Kind == yaml.SequenceNode && len(n.Content) > 0 && g.p(35):
			s.items = append(s.items, g.gOf(n.Content[g.n(len(n.Content))])) // an item which is there already
		case len(s.items) > 0 && g.p(15):
			s.items = append(s.items, s.items[g.n(len(s.items))])
		default:
			s.items = append(s.items, g.node(2))
		}
	}
	s.flow = g.p(25)
	return unmark(s)
}

func combineCase(t *T) {
	g := t.gen()
	g.wild = true
	b := t.builder(g)
	texts := append(append([]string{}, intTexts...), wildScalars...)
	texts = append(texts, plainScalars...)
	mk := func() *G {
		m := newMap()
		n := 3 + g.n(8)
		for i := 0; i < n; i++ {
			var v *G
			switch g.n(6) {
			case 0, 1:
				v = sc(intTexts[g.n(len(intTexts))])
			case 2:
				v = sc(g.pick("true", "false", "True", "FALSE", "TRUE", "False"))
			case 3:
				v = g.scalar()
			default:
				s := texts[g.n(len(texts))]
				for strings.HasPrefix(s, "!") {
					s = texts[g.n(len(texts))]
				}
				v = sc(s)
			}
			m.set(fmt.Sprintf("k%d", i), v)
		}
		if g.p(40) {
			m.set("list", newSeq(sc("1"), sc("2"), sc("0x10")))
		}
		if g.p(30) {
			m.set("map", newMap().set("a", sc("1")))
		}
		return m
	}
	b.sources(2, 2, mk)
	reject := g.p(18)
	n := 1 + g.n(4)
	made := 0
	for i := 0; i < n; i++ {
		ok := b.addCommon(func() *Ov {
			o := b.ov(b.inScope(all), ovOpt{expr: 15, multi: 20, actions: []string{"combine"}, want: isKind(yaml.ScalarNode)})
			if o != nil && len(o.Query) > 1 {
				o.Value = sc(g.pick("1", "-5", "true", "0x2"))
			}
			return o
		})
		if ok {
			made++
		}
	}
	if reject {
		d, l := b.pickLoc(b.inScope(all), nil)
		if d == nil {
			t.skip("no place")
			return
		}
		o := &Ov{Action: "combine", Query: []string{g.exactPathSafe(l.steps)}, Value: sc("1")}
		switch {
		case l.node.Kind != yaml.ScalarNode:
		case l.node.ShortTag() == "!!int":
			o.Value = sc(g.pick("abc", "1.5", `""`, "[1]", "{a: 1}", "true", "0x", `"1 2"`))
		case l.node.ShortTag() == "!!bool":
			o.Value = sc(g.pick("abc", "2", "[true]", "{a: true}", "yess"))
		default:
			o.Value = sc(g.pick("[a]", "{a: 1}"))
		}
		b.in.Common = append(b.in.Common, o)
		b.forms = append(b.forms, "reject")
		t.count("reject_attempts")
	} else if made == 0 {
		t.skip("no combination with a specified outcome")
		return
	}
	b.finish(t, judgeOpt{})
}

func passThrough(t *T) {
	g := t.gen()
	g.anchors = t.idx%2 == 0
	g.tags = t.idx%3 == 0
	g.markers = t.idx%5 == 0
	g.wild = t.idx%7 != 0
	if g.p(40) {
		g.comments = 25
	}
	switch t.idx % 10 {
	case 0:
		g.maxDepth, g.width, g.size = 8, 3, 0
	case 1:
		g.maxDepth, g.width, g.size = 2, 30, 'w'
	}
	b := t.builder(g)
	nf := 1
	if g.p(30) {
		nf = 1 + g.n(6)
	}
	for i := 0; i < nf; i++ {
		nd := 1 + g.n(3)
		if g.p(5) {
			nd = 10 + g.n(40)
		}
		text, docs := g.goodStream(nd, b.doc)
		if g.p(8) { // empty documents
			text, docs = g.withEmptyDocs(text, docs)
		}
		if g.p(5) {
			crlf := strings.ReplaceAll(text, "\n", "\r\n")
			if d, err := parseDocs(crlf); err == nil {
				text, docs = crlf, d
			}
		}
		b.fileText(fmt.Sprintf("src/f%d.yaml", i), text, docs)
	}
	large := g.p(2)
	if large {
		var sb strings.Builder
		for i := 0; i < 2000; i++ {
			fmt.Fprintf(&sb, "---\nid: %d\nlist: [a, %d, {b: %d}]\ntext: \"%s\"\n", i, i, i, g.word(30))
		}
		d, _ := parseDocs(sb.String())
		b.fileText("src/large.yaml", sb.String(), d)
		t.count("large_files")
	}
	kind := g.n(3)
	if kind > 0 {
		b.spread(1+g.n(3), func(docs []*Node) *Ov {
			acts := []string{"merge", "replace", "delete"}
			o := b.ov(docs, ovOpt{expr: 15, multi: 5, actions: acts})
			if large && o != nil && len(b.form(o)) > 600 { // the output would be enormous
				o.Value, o.Action = sc("small"), "replace"
			}
			if kind == 2 && o != nil { // selects nothing
				o.Query = []string{g.pick("$.no.such.thing", "$..nothing-here", "nothing[3]", "$['no such key']")}
			}
			return o
		})
	}
	b.s.Stdout = g.p(50)
	b.forms = append(b.forms, "")
	b.finish(t, judgeOpt{})
	t.count([]string{"without_overlays", "with_overlays", "overlays_selecting_nothing"}[kind])
}

// withEmptyDocs adds documents without content to a stream.
func (g *Gen) withEmptyDocs(text string, docs []*Node) (string, []*Node) {
	t := text
	switch g.n(3) {
	case 0:
		t = "---\n" + ensureMarker(text)
	case 1:
		t = text + "---\n"
	default:
		t = ensureMarker(text) + "---\n---\n" + ensureMarker(text)
	}
	if d, err := parseDocs(t); err == nil {
		return t, d
	}
	return text, docs
}

func ensureMarker(t string) string {
	if strings.HasPrefix(t, "---") {
		return t
	}
	return "---\n" + t
}
