package main

import (
	"fmt"
	"regexp"
	"strings"

	"gopkg.in/yaml.v3"
)

var sedCmds = []string{"", "", "", "{s/a/b/}", "{s/e/EE/g}", "{s/-/_/g}", "{s/$/END/}", "{s/^/START/}", "{s/[0-9]+/N/g}", "{s/(.)(.)/$2$1/}", "{s/app/x/g}", "{}", "{s/x}", "{p;d}", "{y/abc/xyz/}", "{s/ //g}", "{s/a/b/;s/b/c/}", "{s/zzz/q/g}"}

// frags are files which the sed command "r" can insert.
var frags = map[string]string{
	"frag-one.txt":   "one line\n",
	"frag-more.txt":  "first: %v\n  second # x\n\n- fourth\n",
	"frag-empty.txt": "",
}

var sedRead = regexp.MustCompile(`^r (?:\S*/)?(frag-[a-z]+\.txt)$`)

// sedFile is what a "r" command makes of a text: the file follows each of its lines.
func sedFile(name, text string) string {
	c, ok := frags[name]
	if !ok || text == "" {
		return text
	}
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		b.WriteString(strings.TrimSuffix(l, "\r") + "\n" + c) // the sed library reads lines without a CR
	}
	return strings.TrimPrefix(strings.TrimSuffix(b.String(), "\n"), "\n")
}

// markText makes a text with format markers; names are the markers to use.
func (g *Gen) markText(names string) string {
	var b strings.Builder
	n := 1 + g.n(3)
	for i := 0; i < n; i++ {
		switch g.n(10) {
		case 0:
			b.WriteString(g.pick("100%", "%d", "%%", "% v", "%V", "x", " ", "é", "{s/a/b/}", "%x{y}", "{", "}", "%"))
			if g.p(30) {
				break
			}
		case 1:
			b.WriteString(g.pick("pre-", "a", "1", "it's ", "[x] "))
		}
		b.WriteString("%" + string(names[g.n(len(names))]))
		if g.reads && g.p(12) {
			b.WriteString("{r " + g.pick("", "@/") + "frag/" + g.pick("frag-one.txt", "frag-one.txt", "frag-more.txt", "frag-empty.txt", "frag-none.txt") + "}")
		} else {
			b.WriteString(sedCmds[g.n(len(sedCmds))])
		}
		if g.p(25) {
			b.WriteString(g.pick("-post", " end", ".", "s", "1", "%"))
		}
	}
	return b.String()
}

// anyQuote writes a text as a scalar of one line in one of the styles which can hold it.
func (g *Gen) anyQuote(s string) string {
	switch g.n(3) {
	case 0:
		if !strings.ContainsAny(s, "\n\r\t") {
			return squote(s)
		}
	case 1:
		for _, t := range []string{"- " + s, s + ": 1"} {
			d, err := parseDocs(t)
			if err != nil || len(d) != 1 || len(d[0].Content) != 1 || len(d[0].Content[0].Content) == 0 {
				return dquote(s)
			}
			if c := d[0].Content[0].Content[0]; c.Kind != yaml.ScalarNode || c.Value != s || c.ShortTag() != "!!str" {
				return dquote(s)
			}
		}
		return s
	}
	return dquote(s)
}

// withMarkers puts markers into the texts of a value which is going to be merged.
func (g *Gen) withMarkers(x *G, top bool, pct int) *G {
	names := "vvvkhlf"
	if top {
		names = "vvvhlf"
	}
	switch x.kind {
	case 'v':
		if g.p(pct) {
			g.reads = g.frags
			x.raw, x.block = g.anyQuote(g.markText(names)), nil
			g.reads = false
			if g.p(6) && !top {
				x.tag = g.pick("!!str", "!!int", "!custom")
			}
		}
	case 'm':
		for i, v := range x.items {
			g.withMarkers(v, false, pct)
			g.markComment(x.keys[i], v, pct/3)
		}
	case 's':
		for _, v := range x.items {
			g.withMarkers(v, false, pct/3)
		}
	}
	return x
}

// markComment adds comments with or without markers to an entry of a mapping of an overlay.
func (g *Gen) markComment(k, v *G, pct int) {
	text := func(kind string) string {
		c := g.comment(kind)
		if g.p(60) {
			c += " " + strings.ReplaceAll(g.markText("vkhlf"), "#", "")
		}
		return c
	}
	if g.p(pct) {
		k.head = append(k.head, text("ovhead"))
	}
	if v.kind == 'v' && v.block == nil && g.p(pct) {
		v.line = text("ovline")
	}
	if v.kind == 'v' && v.block == nil && g.p(pct/3) {
		k.foot = append(k.foot, text("ovfoot"))
	}
}

// scalarMap makes a flat value for a mapping all of whose entries are scalars, with a marker as key.
func (g *Gen) markerKeyValue(n *Node) *G {
	m := newMap()
	k := sc(g.anyQuote(g.pick("%k", "%k", "pre-%k", "%k-post", "%k{s/a/b/g}", "%k{s/^/x-/}", "%v", "%k-%v", "%l%k")))
	v := sc(g.anyQuote(g.markText("vvkhlf")))
	if g.p(25) {
		v = unmark(g.scalar())
	}
	if g.p(40) {
		v.raw, v.block = g.anyQuote("%v"), nil
	}
	m.put(k, v)
	g.markComment(k, v, 20)
	if g.p(30) {
		m.set("extra", sc(g.anyQuote(g.markText("vkhlf"))))
	}
	if g.p(15) {
		m.put(sc(dquote("%k")), sc(dquote("%v")))
	}
	return m
}

func markersCase(t *T) {
	g := t.gen()
	g.markers = t.idx%2 == 0
	g.comments = 25
	g.frags = true
	g.anchors = t.idx%7 == 0
	b := t.builder(g)
	b.sources(2, 2, b.doc)
	marks := 0
	if g.p(4) { // a large mapping
		f := b.file("src/large.yaml", 1, func() *G {
			m := newMap()
			for k := 20 + g.n(60); k > 0; k-- {
				m.set(fmt.Sprintf("key%d", k), qs(g.word(6)))
			}
			return newMap().set("large", m)
		})
		b.addFile(f, func() *Ov {
			return &Ov{Query: []string{g.pick("large", "$.large", "$['large']")}, Action: "merge", Value: g.markerKeyValue(nil)}
		})
		marks++
	}
	b.spread(1+g.n(4), func(docs []*Node) *Ov {
		var o *Ov
		k := g.n(10)
		switch {
		case k < 4:
			o = b.ov(docs, ovOpt{expr: 25, multi: 15, actions: []string{"merge"}, want: isKind(yaml.ScalarNode), value: func(n *Node) *G {
				g.reads = true // of comments as well, but not in comments
				x := sc(g.anyQuote(g.markText("vvvhlf")))
				g.reads = false
				return x
			}})
		case k < 7:
			o = b.ov(docs, ovOpt{expr: 20, multi: 10, actions: []string{"merge"}, want: isKind(yaml.MappingNode, yaml.SequenceNode), value: func(n *Node) *G {
				vg := &Gen{r: t.r, maxDepth: 3, width: 3, wild: g.wild}
				return g.withMarkers(vg.deepMergeValue(n, 3), true, 65)
			}})
		case k < 9:
			o = b.ov(docs, ovOpt{expr: 20, multi: 10, actions: []string{"merge"}, want: func(l loc) bool {
				if l.node.Kind != yaml.MappingNode || len(l.node.Content) == 0 {
					return false
				}
				for i := 1; i < len(l.node.Content); i += 2 {
					if l.node.Content[i].Kind != yaml.ScalarNode && t.r.Intn(4) > 0 {
						return false
					}
				}
				return true
			}, value: g.markerKeyValue})
		default:
			// comments of a replace or combine may have markers as well
			if g.p(60) {
				o = b.ov(docs, ovOpt{expr: 20, multi: 10, actions: []string{"replace", "combine"}, want: isKind(yaml.ScalarNode)})
			} else {
				o = b.ov(docs, ovOpt{expr: 20, multi: 10, actions: []string{"replace", "replace", "merge"}})
			}
			if o != nil && o.Value != nil && (o.Value.kind == 'm' || o.Value.kind == 's') && len(o.Value.items) > 0 {
				stripComments(o.Value)
				o.Value.flow = true
			}
			if o != nil && o.Value != nil && o.Value.kind != '*' && (o.Value.kind == 'v' || o.Value.flow) && o.Value.block == nil {
				o.Value.line = g.comment("ovline") + " " + g.markText("vhlf")
			}
		}
		if o != nil && strings.Contains(b.form(o), "%") {
			marks++
		}
		return o
	})
	for i := 0; i < marks; i++ {
		t.count("overlays_with_markers")
	}
	b.s.Frags = map[string]string{}
	for n, c := range frags {
		b.s.Frags["frag/"+n] = c
	}
	for _, f := range b.forms {
		if strings.Contains(fmt.Sprint(f), "{r ") {
			t.count("overlays_which_read_a_file")
		}
	}
	b.finish(t, judgeOpt{comments: true})
}

// decorated adds comments to a generated overlay value.
func (g *Gen) decorated(x *G, pct int) *G {
	switch x.kind {
	case 'v':
		if x.block == nil && g.p(pct) {
			x.line = g.comment("ovline")
		}
	case 'm':
		if g.p(pct / 3) {
			x.line = g.comment("ovline")
		}
		if x.flow && g.p(80) {
			x.flow = false
		}
		if x.flow {
			return x
		}
		for i, v := range x.items {
			if g.p(pct) {
				x.keys[i].head = append(x.keys[i].head, g.comment("ovhead"))
				for g.p(15) {
					if g.p(40) {
						x.keys[i].head = append(x.keys[i].head, "#")
					}
					x.keys[i].head = append(x.keys[i].head, g.comment("ovhead"))
				}
			}
			if g.p(pct/3) && v.kind == 'v' && v.block == nil {
				x.keys[i].foot = append(x.keys[i].foot, g.comment("ovfoot"))
			}
			g.decorated(v, pct)
			if v.line != "" && g.p(15) { // the same comment above
				x.keys[i].head = append(x.keys[i].head, v.line)
			}
		}
	case 's':
		if g.p(pct / 3) {
			x.line = g.comment("ovline")
		}
		if x.flow {
			return x
		}
		for _, v := range x.items {
			if g.p(pct) {
				v.head = append(v.head, g.comment("ovhead"))
			}
			if v.kind == 'v' {
				g.decorated(v, pct)
			}
		}
	}
	return x
}

func commentsCase(t *T) {
	if t.idx%8 == 7 {
		corpusCase(t, 4, judgeOpt{comments: true})
		return
	}
	g := t.gen()
	g.comments = 20 + g.n(40)
	g.anchors = t.idx%5 == 0
	b := t.builder(g)
	b.sources(2, 3, b.doc)
	if t.idx%8 > 0 {
		b.spread(1+g.n(4), func(docs []*Node) *Ov {
			o := b.ov(docs, ovOpt{expr: 30, multi: 15, actions: []string{"merge", "merge", "replace", "combine", "delete"}, value: nil})
			if o != nil && o.Value != nil && g.p(55) {
				g.decorated(o.Value, 35)
			}
			if o != nil && o.Action != "delete" && o.Action != "combine" && g.p(12) {
				q, _ := g.missingPath(docs[g.n(len(docs))])
				o.Query, o.Missing = []string{q}, "inject"
			}
			return o
		})
	} else {
		b.forms = append(b.forms, "")
	}
	b.finish(t, judgeOpt{comments: true})
}

var srcComment = regexp.MustCompile(`\b(head|line|foot|doc|docfoot)[0-9]+\b`)

// removeCommentsCase compares a run with remove-comments to one without, and to the model.
func removeCommentsCase(t *T) {
	g := t.gen()
	g.comments = 25 + g.n(40)
	g.anchors = t.idx%5 == 0
	b := t.builder(g)
	how := t.idx % 5
	b.opts.removeComments = how < 4
	b.s.effRemove = how < 4
	switch how {
	case 0, 1:
		b.s.Remove = true
	case 2:
		b.s.Env = map[string]string{"YOT_REMOVE_COMMENTS": g.pick("true", "1", "True")}
	case 3:
		b.s.Sources["conf.yaml"] = "removeComments: true\n"
		b.s.Extra = append(b.s.Extra, "--config", "conf.yaml")
	}
	b.sources(2, 4, b.doc)
	for p, text := range b.s.Sources { // comments in unusual places
		if strings.HasSuffix(p, ".yaml") && p != "conf.yaml" && g.p(30) {
			nt := "# head9001\n\n# head9002\n" + text
			if g.p(50) {
				nt = text + "# foot9003\n\n# foot9004\n"
			}
			if d, err := parseDocs(nt); err == nil {
				if same := cmpDocs(d, mustDocs(text)); same == "" {
					b.s.Sources[p] = nt
					for _, f := range b.files {
						if f.path == p {
							f.docs = d
						}
					}
				}
			}
		}
	}
	if b.opts.removeComments { // the overlays are generated for documents without comments
		for _, f := range b.files {
			for _, d := range f.docs {
				clearComments(d)
			}
		}
	}
	srcs := 0
	for _, s := range b.s.Sources {
		srcs += len(srcComment.FindAllString(s, -1))
	}
	t.addn("source_comments", int64(srcs))
	if t.idx%6 > 0 {
		b.spread(1+g.n(3), func(docs []*Node) *Ov {
			o := b.ov(docs, ovOpt{expr: 30, multi: 15, actions: []string{"merge", "merge", "replace", "combine", "delete"}})
			if o != nil && o.Value != nil && g.p(60) {
				g.decorated(o.Value, 45)
			}
			return o
		})
	}
	b.forms = append(b.forms, "")
	if len(b.in.Files) > 1 && g.p(30) { // one of the files by a flag
		for i, e := range b.in.Files {
			if len(e.Ovs)+len(e.Docs) == 0 {
				b.in.Files = append(b.in.Files[:i:i], b.in.Files[i+1:]...)
				if g.p(60) && e.Out == "" {
					b.s.Path, b.s.Stdin = "-", b.s.Sources[e.Path]
					t.count("standard_input")
					break
				}
				b.s.Path = "@/" + e.Path
				t.count("path_flag")
				break
			}
		}
	}
	b.s.Stdout = g.p(40)
	s := b.done()
	t.sig(s.Instr, s.Sources, how)
	r := t.judge(s, judgeOpt{comments: true})
	if r == nil || r.Exit != 0 || !b.opts.removeComments {
		return
	}
	c := s.Case()
	text := outputs(r)
	if m := srcComment.FindString(commentsText(text)); m != "" {
		t.fail(c, r, fmt.Sprintf("comment %q of a source is in the output", m))
		return
	}
	// the data is the same as without the setting
	s.Remove, s.effRemove = false, false
	delete(s.Env, "YOT_REMOVE_COMMENTS")
	s.Extra = nil
	c2 := s.Case()
	r2 := t.judge(s, judgeOpt{})
	if r2 == nil {
		return
	}
	if r2.Exit != 0 {
		t.fail(c2, r2, "fails without remove-comments, succeeds with it")
		return
	}
	a, e1 := parseDocs(text)
	d, e2 := parseDocs(outputs(r2))
	if e1 != nil || e2 != nil {
		t.count("library_limited")
		return
	}
	if diff := cmpDocs(a, d); diff != "" {
		if t.counts["library_limited"] > 0 { // the comments make the library change some text
			return
		}
		t.fail(c2, r2, "the data with remove-comments differs from the data without: "+diff)
	}
	t.count("compared_with_and_without")
}

func mustDocs(text string) []*Node {
	d, _ := parseDocs(text)
	return d
}

// outputs is the text of all outputs, the files in the order of their names.
func outputs(r *Result) string {
	fs := newFiles(r)
	if len(fs) == 0 {
		return r.Stdout
	}
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(r.After[f])
	}
	return b.String()
}

// commentsText is the text of all comments of a stream.
func commentsText(text string) string {
	d, err := parseDocs(text)
	if err != nil {
		return ""
	}
	var b strings.Builder
	for _, x := range d {
		for _, c := range allComments(x) {
			b.WriteString(c + "\n")
		}
	}
	return b.String()
}

func init() {
	register(&Prop{id: "C11", quick: 6000, thorough: 40000,
		rule:    "a case merges values, keys and comments with format markers (with and without sed commands, in scalars, mappings, marker keys, added values) into documents whose values and comments are partly marker-like themselves; distinct by instructions and sources",
		assume:  []string{modelTrust, "the sed library's evaluation of commands other than plain s/text/text/ is trusted", "%k is not judged where the target of the query itself is the scalar"},
		min:     map[string]int64{"exit_0": 100, "overlays_with_markers": 300},
		perCase: markersCase})
	register(&Prop{id: "C12", quick: 6000, thorough: 40000,
		rule:    "a case has sources full of head, line and foot comments with unique ids and overlays with and without comments of their own; all comments of the output are compared by kind and place with what the YAML library makes of the expected document; distinct by instructions and sources",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100},
		perCase: commentsCase})
	register(&Prop{id: "C13", quick: 3000, thorough: 25000,
		rule:    "a case runs generated sources full of comments with remove-comments (by flag, environment or configuration, or not at all), looks for the unique ids of the source comments in the output, compares all comments with the expected ones, and the data with a run without the setting; distinct by instructions, sources and setting",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100, "source_comments": 1000, "compared_with_and_without": 100},
		perCase: removeCommentsCase})
}
