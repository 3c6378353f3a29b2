package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

var logArgs = [][]string{nil, {"-v"}, {"-v=debug"}, {"--log-level=info"}, {"-v=notice"}, {"-v=error"}, {"-v=crit"}, {"--log-level=warning"}, {"-v=d"}, {"--log-level=Critical"}}

// listed reads the names of the written files from standard output and gives their content in that order.
func (t *T) listed(r *Result, cwd string) string {
	var b strings.Builder
	for _, l := range strings.Split(r.Stdout, "\n") {
		if l == "" {
			continue
		}
		if !path.IsAbs(l) {
			l = path.Join(t.sb.Dir, cwd, l)
		}
		b.WriteString(r.After[rel(path.Clean(l), t.sb.Dir)])
	}
	return b.String()
}

// manyFiles makes a scenario with several files and overlays of all kinds.
func (t *T) manyFiles(g *Gen, max int, acts ...string) *Builder {
	b := t.builder(g)
	nf := 1 + g.n(max)
	if g.size == 'm' && max > 3 && g.p(60) {
		nf = max + g.n(30)
	}
	for i := 0; i < nf; i++ {
		nd := 1 + g.n(3)
		if g.size == 'm' && g.p(15) {
			nd = 4 + g.n(20)
		}
		b.file(fmt.Sprintf("src/%s%d.yaml", g.pick("", "a/", "b/", "a/b/"), i), nd, b.doc)
	}
	if g.p(1) && g.p(60) {
		b.file("src/large.yaml", 1, g.large)
		b.t.count("large_files")
	}
	if len(acts) == 0 {
		acts = []string{"merge", "merge", "replace", "delete", "combine"}
	}
	b.spread(g.n(5), func(docs []*Node) *Ov {
		if g.p(12) {
			return &Ov{Query: []string{"$"}, Action: "delete", HasIdx: true, DocIdx: []int{g.n(3)}}
		}
		return b.ov(docs, ovOpt{expr: 25, multi: 10, actions: acts})
	})
	g.r.Shuffle(len(b.in.Files), func(i, j int) {
		b.in.Files[i], b.in.Files[j] = b.in.Files[j], b.in.Files[i]
		b.files[i], b.files[j] = b.files[j], b.files[i]
	})
	return b
}

func stdoutCase(t *T) {
	g := t.gen()
	g.comments = g.n(40)
	g.anchors = g.p(20)
	b := t.manyFiles(g, 7)
	s := b.done()
	if g.p(30) {
		s.Styles = []string{g.pick("dq", "sq", "literal", "folded", "flow", "tagged", "normal")}
	}
	if g.p(30) {
		s.Indent = 2 + g.n(8)
	}
	s.Remove = g.p(20)
	s.effRemove = s.Remove
	t.sig(s.Instr, s.Sources, s.Styles, s.Indent)
	if _, err := s.Model(t.sb.Dir, &mTrace{}); err != nil {
		t.skip("not specified")
		return
	}
	s.Extra = logArgs[g.n(len(logArgs))]
	c1 := s.Case()
	r1 := t.judge(s, judgeOpt{strOnly: styleOf(s.Styles)&strStyles != 0, style: styleOf(s.Styles), indent: s.Indent})
	if r1 == nil || r1.Exit != 0 {
		return
	}
	files := t.listed(r1, "")
	for _, f := range newFiles(r1) {
		if !strings.Contains("\n"+r1.Stdout, "\n"+f+"\n") {
			t.fail(c1, r1, f+" is not listed on standard output")
			return
		}
	}
	s.Stdout = true
	s.Extra = append([]string{}, logArgs[g.n(len(logArgs))]...)
	how := g.n(4)
	c2 := s.Case()
	switch how {
	case 1:
		c2.Args = c2.Args[:0]
		s.Stdout = false
		s.NoOut = true
		c2 = s.Case()
		c2.Env["YOT_STDOUT"] = "true"
		s.Stdout = true
	case 2:
		c2.Args = append(c2.Args, "-o", "elsewhere")
	case 3:
		s.Stdout, s.NoOut = false, true
		c2 = s.Case()
		c2.Files["yot.conf"] = "stdout: true\n"
		c2.Args = append(c2.Args, "--config", "yot.conf")
		s.Stdout = true
	}
	r2 := t.run(c2)
	if r2 == nil {
		return
	}
	if cr := r2.Crash(); cr != "" || r2.Exit != 0 {
		t.fail(c2, r2, fmt.Sprintf("exit status %d with --stdout, 0 without: %s %s", r2.Exit, cr, firstLines(r2.Stderr, 3)))
		return
	}
	if r2.Stdout != files {
		t.fail(c2, r2, "standard output is not the concatenation of the files: "+lineDiff(r2.Stdout, files))
		return
	}
	cr, ch, rm := r2.Changed()
	if len(cr)+len(ch)+len(rm) > 0 {
		t.fail(c2, r2, fmt.Sprintf("with --stdout created %v, changed %v, removed %v", cr, ch, rm))
		return
	}
	t.count("modes_compared")
	t.addn("bytes_compared", int64(len(files)))
	t.addn("files_compared", int64(len(newFiles(r1))))
	if len(newFiles(r1)) > 1 {
		t.count("several_files")
	}
	// one valid stream: as many documents as the files have
	n := 0
	for _, f := range newFiles(r1) {
		d, err := parseDocs(r1.After[f])
		if err != nil {
			return
		}
		n += len(d)
	}
	d, err := parseDocs(r2.Stdout)
	if err != nil || len(d) != n {
		t.fail(c2, r2, fmt.Sprintf("the stream on standard output has %d documents (%v), the files have %d", len(d), err, n))
	}
}

// flags against instructions

// cliValue writes a value for -x.
func (g *Gen) cliValue(x *G) string {
	if x.flow || x.kind == 'v' && x.block == nil {
		if x.kind == 'v' {
			return x.flowText() + strings.TrimRight(" "+x.line, " ")
		}
		return x.flowText()
	}
	w := &W{step: 2}
	w.doc(x)
	return w.b.String()
}

func cliCase(t *T) {
	g := t.gen()
	g.comments = g.n(30)
	b := t.builder(g)
	nf := 1 + g.n(3)
	for i := 0; i < nf; i++ {
		b.file(fmt.Sprintf("src/%s%d.yaml", g.pick("", "a/", "b/"), i), 1+g.n(3), b.doc)
	}
	for k := g.n(3); k > 0; k-- {
		b.addCommon(func() *Ov {
			return b.ov(b.inScope(all), ovOpt{expr: 20, actions: []string{"merge", "replace", "delete"}})
		})
	}
	// the overlay in question
	b.s.Inject = g.p(25)
	b.s.effInject = b.s.Inject
	b.opts.inject = b.s.Inject
	cli := b.addOv(all, func() *Ov {
		o := b.ov(b.inScope(all), ovOpt{expr: 30, multi: 20, actions: []string{"merge", "merge", "replace", "combine", "delete"}})
		if o == nil {
			return nil
		}
		o.Name = ""
		if o.Value == nil || len(o.Query) > 1 || g.p(15) {
			for k := g.n(4); k > 0; k-- { // the same query more than once
				q := o.Query[g.n(len(o.Query))]
				if o.Action != "delete" {
					q += g.pick("", "", "~")
				}
				o.Query = append(o.Query, q)
			}
		}
		if o.Action != "delete" && o.Action != "combine" && g.p(20) {
			docs := b.inScope(all)
			q, _ := g.missingPath(docs[g.n(len(docs))])
			o.Query = []string{q}
		}
		if o.Action == "merge" && o.Value != nil && g.p(25) {
			g.withMarkers(o.Value, true, 50)
		}
		if o.Value != nil && o.Value.kind == 'v' && o.Value.block == nil && g.p(20) {
			o.Value.line = g.comment("ovline")
		}
		if o.Value != nil && o.Value.kind != 'v' && g.p(25) {
			g.decorated(o.Value, 30)
			noFoot(o.Value)            // which would be one of the document as well
			if len(o.Value.keys) > 0 { // a comment of the first key would be one of the document
				o.Value.keys[0].head = nil
			}
			if o.Value.kind == 's' && len(o.Value.items) > 0 {
				o.Value.items[0].head = nil
			}
		}
		return o
	})
	if cli == nil {
		t.skip("no overlay")
		return
	}
	for _, f := range b.files { // and overlays after it
		f := f
		for k := g.n(3); k > 0; k-- {
			b.addFile(f, func() *Ov {
				return b.ov(b.inScope(func(x *bFile, i int) bool { return x == f }), ovOpt{expr: 10, actions: []string{"merge", "replace"}})
			})
		}
	}
	hasOvs := len(b.in.Common) > 0
	for _, e := range b.in.Files {
		hasOvs = hasOvs || len(e.Ovs) > 0
	}
	form := g.n(3)
	if hasOvs || nf > 1 {
		form = 0
	}
	// all in the instructions
	common := b.in.Common
	b.in.Common = append(append([]*Ov{}, common...), cli)
	s := b.done()
	s.Stdout = g.p(50)
	t.sig(s.Instr, s.Sources, form)
	r1 := t.judge(s, judgeOpt{comments: false})
	if r1 == nil {
		return
	}
	// the overlay by flags
	s2 := *s
	b.in.Common = common
	s2.Instr = g.instrText(b.in)
	s2.Query = cli.Query
	s2.Action = cli.Action
	d2, _ := b.model(cli)
	if cli.Value != nil {
		s2.Value = g.cliValue(cli.Value)
	}
	d1, _ := parseDocs(s2.Value)
	if cli.Value != nil && (len(d1) != 1 || canon(d1[0]) != canon(d2.value)) {
		t.skip("the value cannot be written as a flag")
		return
	}
	if form == 1 { // the file by a flag as well
		s2.Instr, s2.IPath = "", ""
		s2.Path = b.files[0].path
		t.count("path_flag")
	}
	if form == 2 { // standard input
		s2.Instr, s2.IPath = "", ""
		s2.Path = "-"
		s2.Stdin = s.Sources[b.files[0].path]
		t.count("standard_input")
	}
	c2 := s2.Case()
	if g.p(30) {
		longFlags(c2)
	}
	r2 := t.run(c2)
	if r2 == nil {
		return
	}
	if cr := r2.Crash(); cr != "" || r1.Exit != r2.Exit {
		t.fail(c2, r2, fmt.Sprintf("exit status %d by flags, %d by instructions: %s %s", r2.Exit, r1.Exit, cr, firstLines(r2.Stderr, 3)))
		return
	}
	t.count("compared")
	if r1.Exit != 0 {
		return
	}
	if last := len(b.in.Files) - 1; form == 0 && last > 0 && g.p(40) {
		// a file, or a stream, on the command line in addition to those of the instructions
		f := b.files[len(b.files)-1].path
		if path.Base(b.in.Files[last].Path) == path.Base(f) {
			defer func() {
				s3 := s2
				files := b.in.Files
				b.in.Files = files[:last]
				s3.Instr = g.instrText(b.in)
				b.in.Files = files
				s3.Path = "@/" + f
				if !s3.InStdin && g.p(70) {
					s3.Path, s3.Stdin = "-", s.Sources[f]
				}
				if cli.Value != nil && (d1[0].HeadComment+d1[0].FootComment != "" || fmt.Sprint(commentsOf(d1[0].Content[0])) != fmt.Sprint(commentsOf(d2.value))) {
					return
				}
				t.judge(&s3, judgeOpt{})
				t.count("path_flag_and_instructions")
			}()
		}
	}
	a, bb := t.allOut(r1, s), t.allOut(r2, s)
	if form == 2 && !s.Stdout {
		if a != "" && !strings.HasPrefix(bb, "out/stdin.yaml\n") {
			t.fail(c2, r2, "the output of standard input is not out/stdin.yaml: "+firstLines(bb, 1))
			return
		}
		a, bb = afterLine(a), afterLine(bb)
	}
	if cli.Value != nil && (d1[0].HeadComment+d1[0].FootComment != "" || fmt.Sprint(commentsOf(d1[0].Content[0])) != fmt.Sprint(commentsOf(d2.value))) {
		// the YAML library attaches the comments to other nodes, or drops them
		a, bb = withoutComments(a), withoutComments(bb)
		t.count("comments_read_differently")
	}
	if a != bb {
		t.fail(c2, r2, "the output differs from the one by instructions: "+lineDiff(bb, a))
	}
}

// withoutComments is the data in an output, as canonical text.
func withoutComments(s string) string {
	d, err := parseDocs(s)
	if err != nil {
		return s
	}
	var b strings.Builder
	for _, x := range d {
		b.WriteString("---\n" + canon(x) + "\n")
	}
	return b.String()
}

func noFoot(x *G) {
	x.foot = nil
	for _, k := range x.keys {
		k.foot = nil
	}
	for _, v := range x.items {
		noFoot(v)
	}
}

func afterLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// allOut is everything a run has put out: standard output, or names and contents of the files.
func (t *T) allOut(r *Result, s *Scenario) string {
	if s.Stdout {
		return r.Stdout
	}
	var b strings.Builder
	for _, f := range newFiles(r) {
		b.WriteString(f + "\n" + r.After[f] + "---\n")
	}
	return b.String()
}

var longNames = map[string]string{"-q": "--query", "-x": "--value", "-a": "--action", "-p": "--path", "-i": "--instructions", "-o": "--output-directory", "-s": "--stdout"}

// longFlags writes flags as --name=value.
func longFlags(c *Case) {
	var r []string
	for i := 0; i < len(c.Args); i++ {
		n, ok := longNames[c.Args[i]]
		switch {
		case !ok:
			r = append(r, c.Args[i])
		case n == "--stdout":
			r = append(r, n)
		default:
			r = append(r, n+"="+c.Args[i+1])
			i++
		}
	}
	c.Args = r
}

// stdinCase: a stream from standard input is treated like a file with the same content, whatever it is.
func stdinCase(t *T) {
	g := t.gen()
	g.comments = g.n(40)
	g.anchors = g.p(40)
	var text string
	if g.p(75) {
		b := t.builder(g)
		text, _ = g.goodStream(1+g.n(4), b.doc)
		if g.p(25) {
			text, _ = g.withEmptyDocs(text, nil)
		}
	} else {
		text = g.pick("", "\n", "---\n", "a: [1\n", "a: 1\n b: 2\n", "# only a comment\n", "--- \n...\n---\nx: 1\n", "\ttab: 1\n", "a: 1\r\nb: 2\r\n", "\xef\xbb\xbfa: 1\n", "a: \"\\xff\"\n", "? a\n: b\n", "a: *x\n", "%YAML 1.1\n---\na: 1\n", "just text", "- a\n-b\n", "x\x00y: 1\n")
	}
	var args []string
	if g.p(60) {
		args = append(args, "-q", g.pick("$", "a", "$..name", "metadata.labels", "$.*"), "-x", g.pick("{added: 1}", "x", "[1]", "%v-new"))
		if g.p(50) {
			args = append(args, "-a", g.pick("merge", "replace", "delete"))
		}
	}
	if g.p(30) {
		args = append(args, "--remove-comments")
	}
	stdout := g.p(50)
	mk := func(f, out string) *Case {
		c := &Case{Files: map[string]string{"in/doc.yaml": text}, Args: append([]string{"-p", f}, args...)}
		if f == "-" {
			c.Stdin = text
		}
		if stdout {
			c.Args = append(c.Args, "-s")
		} else {
			c.Args = append(c.Args, "-o", out)
		}
		return c
	}
	if g.p(30) { // listed in instructions
		i := func(p string) string { return "yamlFiles:\n- path: \"" + p + "\"\n  outputPath: res.yaml\n" }
		o := mk
		mk = func(f, out string) *Case {
			c := o(f, out)
			c.Args = append([]string{"-i", "i.yaml"}, c.Args[2:]...)
			c.Files["i.yaml"] = i(f)
			return c
		}
		t.count("listed_in_instructions")
	}
	t.sig(text, args)
	c1, c2 := mk("in/doc.yaml", "out"), mk("-", "out")
	r1 := t.run(c1)
	r2 := t.run(c2)
	if r1 == nil || r2 == nil {
		return
	}
	if cr := r2.Crash(); cr != "" || r1.Exit != r2.Exit {
		t.fail(c2, r2, fmt.Sprintf("exit status %d from standard input, %d from a file: %s %s", r2.Exit, r1.Exit, cr, firstLines(r2.Stderr, 3)))
		return
	}
	t.count("stdin_compared")
	if a, b := outputs(r1), outputs(r2); r1.Exit == 0 && a != b && !(len(newFiles(r1)) == 0 && len(newFiles(r2)) == 0 && !stdout) {
		t.fail(c2, r2, "the output of standard input differs from the one of a file: "+lineDiff(b, a))
	}
}

// styles

var styleNames = map[string]yaml.Style{}

func init() {
	for s, l := range map[yaml.Style][]string{
		64:                     {"normal", "n"},
		yaml.TaggedStyle:       {"tagged", "tag", "t"},
		yaml.DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
		yaml.SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
		yaml.LiteralStyle:      {"literal", "l"},
		yaml.FoldedStyle:       {"folded", "fold", "fo"},
		yaml.FlowStyle:         {"flow", "fl"},
	} {
		for _, n := range l {
			styleNames[n] = s
		}
	}
}

func styleOf(names []string) (s yaml.Style) {
	for _, n := range names {
		for _, x := range strings.Split(n, ",") {
			for k, v := range styleNames {
				if strings.EqualFold(k, x) {
					s |= v
				}
			}
		}
	}
	return
}

const strStyles = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle | yaml.LiteralStyle | yaml.FoldedStyle

// probe is a document in which styles and indentation can be seen.
func probe() *G {
	return newMap().set("probe", sc("some text")).set("nest", newMap().set("inner", newMap().set("deep", sc("word"))))
}

func seen(text string, style yaml.Style, indent int) string {
	has := func(s string) bool { return strings.Contains(text, s) }
	key := func(k string) string {
		if style&yaml.DoubleQuotedStyle != 0 {
			return `"` + k + `"`
		}
		if style&yaml.SingleQuotedStyle != 0 {
			return "'" + k + "'"
		}
		return k
	}
	_ = key
	switch {
	case style&yaml.FlowStyle != 0:
		if !has("{") || !has("}") || has("\n  inner") {
			return "the flow style is not visible"
		}
	case style&yaml.TaggedStyle != 0:
		if !has("!!str") || !has("!!map") {
			return "the tagged style is not visible"
		}
	}
	if style&yaml.TaggedStyle == 0 && (has("!!str ") || has("!!map")) {
		return "tags are visible"
	}
	if style&yaml.FlowStyle == 0 && has("{") {
		return "flow style is visible"
	}
	block := style & strStyles
	switch {
	case block == yaml.DoubleQuotedStyle:
		if !has(`"some text"`) || !has(`"word"`) || has("'word'") {
			return "the double quoted style is not visible"
		}
	case block == yaml.SingleQuotedStyle:
		if !has(`'some text'`) || !has(`'word'`) || has(`"word"`) {
			return "the single quoted style is not visible"
		}
	case block == yaml.LiteralStyle && style&yaml.FlowStyle == 0:
		if !has("|-\n") || !has(" some text\n") || has(">-") {
			return "the literal style is not visible"
		}
	case block == yaml.FoldedStyle && style&yaml.FlowStyle == 0:
		if !has(">-\n") || !has(" some text\n") || has("|-") {
			return "the folded style is not visible"
		}
	case block == 0:
		if !has("some text") || has(`"some text"`) || has("'some text'") || has(`"word"`) || has(">-\n") || has("|-\n") {
			return "scalars are in quotes or blocks"
		}
	}
	if style&yaml.FlowStyle == 0 && indent > 1 && indent < 10 {
		for _, l := range strings.Split(text, "\n") {
			n := len(l) - len(strings.TrimLeft(l, " "))
			w := strings.TrimLeft(l, ` "'?|>-!str`)
			if strings.HasPrefix(w, "inner") && n != indent {
				return fmt.Sprintf("indented by %d instead of %d", n, indent)
			}
			if strings.HasPrefix(w, "deep") && n != 2*indent {
				return fmt.Sprintf("indented by %d instead of %d", n, 2*indent)
			}
		}
	}
	return ""
}

// styledAll checks that all nodes have the style, as far as it is certain how they are to be written.
func styledAll(text string, style yaml.Style) (msg string) {
	docs, err := parseDocs(text)
	if err != nil {
		return ""
	}
	var walk func(n *Node, p string)
	walk = func(n *Node, p string) {
		if msg != "" || n.Kind == yaml.AliasNode {
			return
		}
		switch n.Kind {
		case yaml.MappingNode, yaml.SequenceNode:
			if style&yaml.FlowStyle != 0 && n.Style&yaml.FlowStyle == 0 {
				msg = p + " is not in flow style"
			}
			if style&yaml.FlowStyle == 0 && len(n.Content) > 0 && n.Style&yaml.FlowStyle != 0 {
				msg = p + " is in flow style"
			}
		case yaml.ScalarNode:
			if style&yaml.DoubleQuotedStyle != 0 && n.Style&yaml.DoubleQuotedStyle == 0 && n.Value != "" {
				msg = fmt.Sprintf("%s (%q) is not in double quotes", p, n.Value)
			}
		}
		if style&yaml.TaggedStyle != 0 && n.Kind != yaml.DocumentNode && n.Style&yaml.TaggedStyle == 0 {
			msg = p + " is not tagged"
		}
		for i, c := range n.Content {
			walk(c, fmt.Sprintf("%s/%d", p, i))
		}
	}
	for i, d := range docs {
		walk(d, fmt.Sprintf("document %d: ", i))
	}
	return
}

func probeDoc() *Node {
	d, _ := parseDocs("probe: some text\nnest:\n  inner:\n    deep: word\n")
	return d[0]
}

var hardTexts = []string{`""`, `''`, `""`, `" "`, `"\n"`, `"\n\n"`, `" a"`, `"a "`, `"a\n"`, `"a\n\n"`, `"\na"`, `"a\n b"`, `"a\n\n b"`, `"a\tb"`, `"\ta"`, `"# no comment"`, `"a # b"`, `"a: b"`, `"- a"`, `"? a"`, `"[a"`, `"{a}"`, `"a, b"`, `"&a"`, `"*a"`, `"!a"`, `"%a"`, `"@a"`, "\"`a\"", `"|"`, `">"`, `"---"`, `"--- a"`, `"..."`,
	`"null"`, `"~"`, `"true"`, `"no"`, `"1"`, `"1.5"`, `"0x1f"`, `"1e3"`, `".inf"`, `"2001-01-01"`, `"<<"`, `"="`, `"'"`, `"\""`, `"''"`, `"\\"`, `"\\n"`, `"é日本"`, `"\u2028"`, `"\x85"`, `"\x07"`, `"a\r\nb"`, `"\r"`, `"0"`, "text", "12", "~", "true", "1.50", "2001-01-01", "0o17", "{}", "[]", "null"}

func styleCase(t *T) {
	g := t.gen()
	g.anchors = g.p(20)
	g.tags = g.p(20)
	b := t.builder(g)
	first := true
	b.file("src/f0.yaml", 2+g.n(2), func() *G {
		if first {
			first = false
			return probe()
		}
		d := b.doc()
		if d.kind == 'm' && !d.flow && g.p(40) { // texts which are hard to write in one style or the other, at all places
			l, m := newSeq(), newMap()
			for k := 1 + g.n(5); k > 0; k-- {
				l.items = append(l.items, sc(hardTexts[g.n(len(hardTexts))]))
				m.set(fmt.Sprintf("h%d", k), sc(hardTexts[g.n(len(hardTexts))]))
			}
			l.flow, m.flow = g.p(15), g.p(15)
			d.set("texts", l)
			d.set("hard", m)
			if g.p(30) {
				d.set("nested", newSeq(l, newSeq(m, l)))
			}
		}
		return d
	})
	if len(b.files[0].docs) == 0 || strOf(child(b.files[0].docs[0].Content[0], "probe")) != "some text" {
		text := "probe: some text\nnest:\n  inner:\n    deep: word\n"
		d, _ := parseDocs(text)
		b.s.Sources["src/f0.yaml"] = text
		b.files[0].docs = d
	}
	b.spread(g.n(3), func(docs []*Node) *Ov {
		o := b.ov(docs, ovOpt{expr: 10, actions: []string{"merge", "replace"}, want: func(l loc) bool { return len(l.steps) > 1 }})
		if o != nil {
			o.HasIdx, o.DocIdx = true, []int{1, 2, 3}
		}
		return o
	})
	s := b.done()
	s.Stdout = true
	var names []string
	for n := range styleNames {
		names = append(names, n)
	}
	sort.Strings(names)
	var list []string
	for k := 1 + g.n(3); k > 0; k-- {
		n := names[g.n(len(names))]
		if g.p(20) {
			n = strings.ToUpper(n)
		}
		list = append(list, n)
	}
	if g.p(25) {
		list = append(list, list[0])
		t.count("style_repeated")
	}
	style := styleOf(list)
	indent := 2
	if g.p(70) {
		indent = 1 + g.n(12)
		if g.p(70) {
			indent = 2 + g.n(8)
		}
	}
	switch g.n(4) {
	case 0:
		s.Extra = append(s.Extra, "--output-style="+strings.Join(list, ","))
	case 1:
		s.Env = map[string]string{"YOT_OUTPUT_STYLE": strings.Join(list, g.pick(",", ","))}
	case 2:
		s.Sources["conf.yaml"] = fmt.Sprintf("outputStyle: [%s]\n", strings.Join(list, ", "))
		s.Extra = append(s.Extra, "--config", "conf.yaml")
	default:
		s.Styles = list
	}
	if indent != 2 || g.p(30) {
		if g.p(50) {
			s.Indent = indent
		} else {
			s.Extra = append(s.Extra, fmt.Sprintf("--indent-level=%d", indent))
		}
	}
	t.sig(s.Instr, s.Sources, list, indent)
	c := s.Case()
	r := t.judgeStyle(s, style, indent)
	if r == nil || r.Exit != 0 {
		return
	}
	parts := strings.SplitN(r.Stdout, "\n---\n", 2)
	if d, err := parseDocs(r.Stdout); err != nil || len(d) == 0 || canon(d[0]) != canon(probeDoc()) {
		t.count("probe_changed")
	} else if m := seen(parts[0]+"\n", style, indent); m != "" {
		t.fail(c, r, fmt.Sprintf("styles %v, indent level %d: %s:\n%s", list, indent, m, parts[0]))
		return
	}
	if m := styledAll(r.Stdout, style); m != "" {
		t.fail(c, r, fmt.Sprintf("styles %v: %s", list, m))
		return
	}
	t.count(fmt.Sprintf("style_%d", style))
	// the order and repetition of styles has no effect
	if t.idx%3 == 0 {
		s2 := *s
		c2 := (&s2).Case()
		l2 := append(append([]string{}, list...), list[g.n(len(list))])
		g.r.Shuffle(len(l2), func(i, j int) { l2[i], l2[j] = l2[j], l2[i] })
		s2.Styles, s2.Extra, s2.Env, s2.Indent = l2, nil, nil, indent
		c2 = (&s2).Case()
		r2 := t.run(c2)
		if r2 != nil && r2.Stdout != r.Stdout {
			t.fail(c2, r2, fmt.Sprintf("the styles %v and %v have different results: %s", l2, list, lineDiff(r2.Stdout, r.Stdout)))
		}
		t.count("order_compared")
	}
}

func (t *T) judgeStyle(s *Scenario, style yaml.Style, indent int) *Result {
	if indent < 2 || indent > 9 {
		indent = 2
	}
	return t.judge(s, judgeOpt{strOnly: style&strStyles != 0, style: style, indent: indent})
}

func init() {
	register(&Prop{id: "C18", quick: 2700, thorough: 20000,
		rule:    "a case runs a generated scenario once with output to files and once with --stdout (by flag, environment or configuration) at arbitrary log levels, and compares standard output with the concatenation of the files in the listed order byte by byte; distinct by instructions, sources, styles and indent",
		assume:  []string{modelTrust},
		min:     map[string]int64{"modes_compared": 300, "several_files": 100},
		perCase: stdoutCase})
	register(&Prop{id: "C23", quick: 3600, thorough: 30000,
		rule:   "a case runs the same overlay once as last common overlay of an instruction file and once by flags (with the file from instructions, --path or standard input), or the same text as file and as standard input; outputs are compared byte by byte and with the model; distinct by instructions, sources and form",
		assume: []string{modelTrust},
		min:    map[string]int64{"compared": 200, "standard_input": 3, "path_flag": 10, "stdin_compared": 100},
		perCase: func(t *T) {
			if t.idx%4 == 3 {
				stdinCase(t)
				return
			}
			cliCase(t)
		}})
	register(&Prop{id: "C24", quick: 6000, thorough: 40000,
		rule:    "a case renders generated documents with a list of styles (all names and abbreviations, by flag, environment or configuration) and an indent level, compares the data (texts and structure only for the quoting and block styles) with the model, and looks at the presentation of a probe document; distinct by sources, styles and indent",
		assume:  []string{modelTrust, "an indent level outside of 2 to 9 is only checked for its data"},
		min:     map[string]int64{"exit_0": 300, "order_compared": 100},
		perCase: styleCase})
}
