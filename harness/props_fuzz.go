package main

import (
	"fmt"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

var fuzzTokens = []string{": ", "- ", "? ", "&a ", "*a", "&b [*b]", "&c {x: *c}", "<<: *a", "<<: [*a, *b]", "<<: x", "!!binary ", "!!map ", "!!str ", "!!int ", "!!null ", "!!set ", "!!merge ", "!local ", "!<tag:x,2000:y> ",
	"|\n", ">-\n", "|2-\n", "---\n", "...\n", "%YAML 1.1\n", "%TAG ! x\n", "\t", "\x00", "\ufeff", "\u0085", "\u2028", "{", "}", "[", "]", "{}", "[]", "''", "\"\"", "'", "\"", "#", " # c", "\n", "\r", "\n\n",
	"null", "~", "%v", "%v{s/a/b/}", "%v{}", "%v{", "%k", "%k{x}", "%h%l%f", "%", "%%v", "$", "$..", "$..*", "@", "-1", "1e999", "0x10", "0o7", "0b1", "1_0", ".inf", ".nan", "99999999999999999999", "-9223372036854775808",
	"2001-12-14t21:59:43.10-05:00", "true", "no", "query: ", "value: ", "action: ", "delete", "combine", "replace", "merge", "onMissing: ", "injectPath: ", "documentQuery: ", "conditions: ", "documentIndex: ", "documents: ",
	"overlays: ", "path: ", "outputPath: ", "name: ", "[?(@.a)]", "[?(@.a=='b')]", "[?(@.a>0x10)]", "[?(@=~/x/)]", "[0:2:-1]", "[-1]", "[*]", "..a", "['a','b']", "~", "[a.b]", "\\u0041", "{{", "}}", "{{ .x }}", "\xff", "\xc3\x28", "日本"}

func (g *Gen) mutBytes(s string, others []string) string {
	for k := 1 + g.n(4); k > 0; k-- {
		i := g.n(len(s) + 1)
		j := i + g.n(12)
		if j > len(s) {
			j = len(s)
		}
		if g.p(15) {
			j = i + g.n(len(s)-i+1)
		}
		switch g.n(9) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:j] + s[j:]
		case 2, 3, 4:
			s = s[:i] + g.pick(fuzzTokens...) + s[i:]
		case 5:
			s = s[:i] + g.pick(fuzzTokens...) + s[j:]
		case 6: // lines
			l := strings.SplitAfter(s, "\n")
			a, b := g.n(len(l)), g.n(len(l))
			switch g.n(4) {
			case 0:
				l[a], l[b] = l[b], l[a]
			case 1:
				l[a] = "  " + l[a]
			case 2:
				l[a] = strings.TrimPrefix(l[a], "  ")
			default:
				l[a] = ""
			}
			s = strings.Join(l, "")
		case 7:
			o := g.pick(others...)
			a := g.n(len(o) + 1)
			b := a + g.n(40)
			if b > len(o) {
				b = len(o)
			}
			s = s[:i] + o[a:b] + s[i:]
		default:
			if g.p(30) {
				s = s[:i]
			} else {
				b := []byte(s)
				if i < len(b) {
					b[i] = byte(g.n(256))
				}
				s = string(b)
			}
		}
	}
	if len(s) > 200000 {
		s = s[:200000]
	}
	return s
}

// mutTree changes the structure of a YAML text.
func (g *Gen) mutTree(text string) (out string) {
	out = text
	defer func() {
		if recover() != nil {
			out = text
		}
	}()
	docs, err := parseDocs(text)
	if err != nil || len(docs) == 0 {
		return text
	}
	for k := 1 + g.n(3); k > 0; k-- {
		d := docs[g.n(len(docs))]
		var all []*Node
		var walk func(n *Node)
		walk = func(n *Node) {
			all = append(all, n)
			for _, c := range n.Content {
				walk(c)
			}
		}
		walk(d)
		n := all[g.n(len(all))]
		if n.Kind == yaml.DocumentNode && g.p(80) || n.Kind == yaml.AliasNode {
			continue
		}
		scalar := func(tag, v string) { *n = yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: v} }
		switch g.n(14) {
		case 0:
			scalar("!!null", "null")
		case 1:
			scalar("!!null", "")
		case 2:
			*n = yaml.Node{Kind: yaml.SequenceNode, Style: yaml.FlowStyle}
		case 3:
			*n = yaml.Node{Kind: yaml.MappingNode, Style: yaml.FlowStyle}
		case 4:
			scalar("!!str", g.pick("", "x", "$", "a.b", "$..*", "%v", "-", " "))
		case 5:
			scalar("!!int", g.pick("0", "-1", "1", "99999999999999999999999", "0x1f"))
		case 6:
			scalar("!!bool", g.pick("true", "false"))
		case 7:
			m := *n
			*n = yaml.Node{Kind: yaml.SequenceNode, Content: []*Node{&m}}
			if g.p(50) {
				n.Content = append(n.Content, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"})
			}
		case 8:
			m := *n
			*n = yaml.Node{Kind: yaml.MappingNode, Content: []*Node{{Kind: yaml.ScalarNode, Tag: "!!str", Value: g.pick("x", "a", "<<", "query", "value")}, &m}}
		case 9: // repeat
			if len(n.Content) > 0 && n.Kind != yaml.DocumentNode {
				n.Content = append(n.Content, cloneNode(n.Content[len(n.Content)-1]))
				if n.Kind == yaml.MappingNode {
					n.Content = append(n.Content[:len(n.Content)-1], cloneNode(n.Content[len(n.Content)-2]), n.Content[len(n.Content)-1])
				}
			}
		case 10: // remove children
			if len(n.Content) > 1 && n.Kind != yaml.DocumentNode {
				n.Content = n.Content[:len(n.Content)-2]
			}
		case 11: // an anchor and an alias, possibly recursive
			o := all[g.n(len(all))]
			if o.Kind == yaml.DocumentNode || o.Kind == yaml.AliasNode || o == n {
				continue
			}
			o.Anchor = fmt.Sprintf("m%d", g.n(3))
			*n = yaml.Node{Kind: yaml.AliasNode, Value: o.Anchor, Alias: o}
		case 12:
			n.Tag = g.pick("!!str", "!!int", "!!null", "!!map", "!!seq", "!!binary", "!!float", "!!bool", "!!timestamp", "!local", "!!set", "!!merge")
		default: // deep
			in := *n
			for d := 1 + g.n(200); d > 0; d-- {
				x := in
				in = yaml.Node{Kind: yaml.SequenceNode, Style: yaml.FlowStyle, Content: []*Node{&x}}
			}
			*n = in
		}
	}
	var b strings.Builder
	w := &textWriter{g: g, seen: map[*Node]bool{}}
	for _, d := range docs {
		b.WriteString("---\n")
		if len(d.Content) > 0 {
			w.depth = 0
			b.WriteString(w.flow(d.Content[0]) + "\n")
		}
	}
	return b.String()
}

// textWriter writes nodes as flow text, without any of the checks a library would make.
type textWriter struct {
	g     *Gen
	seen  map[*Node]bool
	depth int
}

func (w *textWriter) flow(n *Node) string {
	w.depth++
	defer func() { w.depth-- }()
	if w.depth > 2000 {
		return "x"
	}
	p := ""
	if n.Anchor != "" {
		p = "&" + n.Anchor + " "
	}
	if n.Tag != "" && (strings.HasPrefix(n.Tag, "!") && !strings.HasPrefix(n.Tag, "!!") || w.g.p(10)) {
		p += n.Tag + " "
	}
	switch n.Kind {
	case yaml.AliasNode:
		return "*" + n.Value
	case yaml.SequenceNode:
		var l []string
		for _, c := range n.Content {
			l = append(l, w.flow(c))
		}
		return p + "[" + strings.Join(l, ", ") + "]"
	case yaml.MappingNode:
		var l []string
		for i := 0; i+1 < len(n.Content); i += 2 {
			l = append(l, w.flow(n.Content[i])+" : "+w.flow(n.Content[i+1]))
		}
		return p + "{" + strings.Join(l, ", ") + "}"
	case yaml.DocumentNode:
		if len(n.Content) > 0 {
			return w.flow(n.Content[0])
		}
		return ""
	}
	if n.ShortTag() == "!!str" {
		return p + dquote(n.Value)
	}
	return p + n.Value
}

var fuzzFlags = []string{"-q", "-x", "-a", "-S", "-I", "-p", "-i", "-f", "--default-on-missing-action", "--config", "-o", "--log-level", "-v", "-s", "--remove-comments", "--version", "-h", "--nope", "env", "completion", "--", "--stdout=x", "-s=false"}

// unusual lists constructs which must be processed or rejected, but never crash.
var unusualInstr = []string{
	"", "\n", "# only a comment\n", "---\n", "--- \n---\n", "...\n", "null\n", "{}\n", "[]\n", "text\n", "commonOverlays:\n", "commonOverlays: []\n", "commonOverlays: null\nyamlFiles: null\n", "yamlFiles:\n", "yamlFiles: []\n",
	"yamlFiles:\n-\n", "yamlFiles: [null]\n", "yamlFiles: [{}]\n", "yamlFiles: [[]]\n", "yamlFiles:\n- path:\n", "yamlFiles:\n- path: ''\n", "yamlFiles:\n- path: src/s.yaml\n  overlays:\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [null]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{}]\n", "yamlFiles:\n- path: src/s.yaml\n  documents:\n", "yamlFiles:\n- path: src/s.yaml\n  documents: [null]\n", "yamlFiles:\n- path: src/s.yaml\n  documents: [{}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  documents: [{path: -1, overlays: [{query: a, value: 1}]}]\n", "yamlFiles:\n- path: src/s.yaml\n  documents: [{path: 99999, overlays: [{query: a, value: 1}]}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{value: a}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: null, value: a}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: [], value: a}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: [null], value: a}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: '', value: a}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: $, action: delete}, {query: $, value: {a: 1}}, {query: a.b, value: 1, onMissing: {action: inject}}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: $, action: replace, value: null}, {query: a, value: 1, onMissing: {action: inject}}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: '$..zz', value: 1, onMissing: {action: inject}}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: zz, value: 1, onMissing: {action: inject, injectPath: []}}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: zz, value: 1, onMissing: {action: inject, injectPath: [null]}}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: zz, value: 1, onMissing: {}}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: zz, value: 1, onMissing: null}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: 1, documentQuery: [null]}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: 1, documentQuery: [{conditions: [null]}]}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: 1, documentQuery: [{conditions: [{query: a}]}]}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: 1, documentIndex: []}]\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: &x [*x]}]\n", "yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: a, value: &x {b: *x}, action: replace}]\n", "yamlFiles: &y\n- path: src/s.yaml\n  overlays: *y\n",
	"yamlFiles:\n- path: src/s.yaml\n  overlays: [{query: '$.a', value: {b: &q 1, c: *q}}, {query: a.b, action: delete}]\n", "commonOverlays: &o [{query: a, value: 1}]\nyamlFiles:\n- path: src/s.yaml\n  overlays: *o\n",
	"yamlFiles:\n- path: .\n", "yamlFiles:\n- path: src\n  outputPath: ''\n", "yamlFiles:\n- path: src\n  outputPath: ../../..\n", "yamlFiles:\n- path: src/s.yaml\n- path: src/s.yaml\n- path: src\n",
	"yamlFiles:\n- path: \"src/s.yaml\\0\"\n", "<<: &m {yamlFiles: [{path: src/s.yaml}]}\n", "? [a]\n: b\nyamlFiles: []\n", "yamlFiles:\n  ? path\n  : x\n",
}

var unusualSource = []string{
	"", "\n", "# only a comment\n", "---\n", "---\n---\n---\n", "null\n", "~\n", "{}\n", "[]\n", "text\n", "5\n", "''\n", "...\n", "---\n...\n", "%YAML 1.2\n---\na: 1\n", "\ufeffa: 1\n", "a:\n", "a: &x\nb: *x\n", "a: &x [*x]\n", "&x {a: *x}\n",
	"a: &x {b: &y {c: *x, d: *y}}\n", "a: &x 1\nb: *x\n", "? {a: b}\n: c\n", "? [a]\n: c\n", "? ''\n: c\n", "? &k a\n: 1\n*k : 2\n", "a: !!binary aGVsbG8=\n", "a: !!set {x, y}\n", "a: !x {b: !y c}\n", "<<: {a: 1}\nb: 2\n", "x: &x {a: 1}\ny: {<<: *x, b: 2}\n",
	"x: &x {a: 1}\ny: {<<: [*x, {a: 2}], b: 2}\n", "<<: text\n", "a: 1\na: 2\n", "- - - a\n", "a: |\n\n\n", "a: >+\n\n  x\n\n\n", "a: \"\\0\\x07\\uFFFF\"\n", "a: 1\n\u2028b: 2\n", "\"\": \"\"\n", "a: .nan\nb: 0x10\nc: 0o7\nd: 1_0\ne: 12e03\n", "a: [{b: }, c: d]\n",
	"a: 'x\n\n  y'\n", "---\na: 1\n---\n---\nb: 2\n...\n---\n", "\t\n", "a: b # c\n# d\n\n# e\n", "a: {'%k': '%v'}\n'%k': '%k%v' # %l%v%h\n", "# %h\n'%k%v': {a: '%k', '%k{s/k/k/}': '%v{s/v/v/}'} # %l\n", "# only\n\n# comments\n---\n# here\n",
}

var anyQueries = []string{"$", "a", "$..*", "$.*", "a.b", "$..a", "$.a[0]", "$.a[-1]", "$.a[*]", "$.a[?(@.b)]", "$[?(@.x=='y')]", "$..[?(@.x)]", "$.a[0:5:2]", "['a','b']", "$.~", "$.*~", "$..*~", "$.a~", "zz", "x.y", "$.x['a']", "''", "[0]", "$[0][0]", "$..zz", "<<", "$.y['<<']", "$.x[?(@==1)]", "$[?(@.a>1 && @.b<2 || !@.c)]", "$[?(@.a=~/x.*/)]", "$.d[?(@>0x1)]"}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func fuzzCase(t *T) {
	g := t.gen()
	if g.p(25) {
		borrowedCase(t, g)
		return
	}
	c := &Case{Files: map[string]string{}, Env: map[string]string{}}
	instr, src := g.pick(unusualInstr...), g.pick(unusualSource...)
	if g.p(5) { // values which contain themselves, and are referred to from outside
		src = g.pick("a: &x {c: *x}\nd: *x\n", "a: [&x [*x, 1], *x]\nd: *x\n", "a: &x\n  b: {c: [*x]}\nx: {y: *x}\n", "a: {b: &x {c: &y {d: *x}}}\nx: *y\n", "a: &x {b: *x}\n---\na: &x [*x]\nb: *x\n")
	}
	ovs := func() string {
		o := "{query: " + squote(g.pick(anyQueries...))
		if g.p(80) {
			o += ", value: " + g.pick("1", "null", "{}", "[]", "{a: 1}", "[1, {b: 2}]", "'%v-x'", "{'%k-x': '%v'}", "{'%k': '%v%k%l'}", "{a: '%k %v %h%l%f'}", "&v {a: *v}", "&v [1, *v]", "{a: &w 1, b: *w}", "!!int x", "x # c", "''", "{'': ''}", "{? [a] : b}", "{<<: {a: 1}}", "!local {a: b}")
		}
		o += ", action: " + g.pick("merge", "merge", "replace", "delete", "combine")
		switch g.n(8) {
		case 0:
			o += ", onMissing: {action: inject}"
		case 1:
			o += ", onMissing: {action: inject, injectPath: [" + squote(g.pick(anyQueries...)) + ", p.q]}"
		case 2:
			o += ", documentQuery: [{conditions: [{query: " + squote(g.pick(anyQueries...)) + ", value: " + g.pick("1", "{a: 1}", "null", "[]", "&z [*z]") + "}]}]"
		}
		if g.p(8) {
			o += ", documentIndex: [" + g.pick("0", "-1", "1", "0, 0", "9223372036854775807", "-9223372036854775808", "1000000000", "4294967296", "18446744073709551615", "0.0", "1e3", "0x1", "", "null", "a", "[0]") + "]"
		}
		return o + "}"
	}
	list := func() string {
		var l []string
		for k := 1 + g.n(4); k > 0; k-- {
			l = append(l, ovs())
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	nothing := true
	if g.p(50) {
		instr = "commonOverlays: " + list() + "\nyamlFiles:\n- path: src/s.yaml\n  overlays: " + list() + "\n"
		if g.p(30) {
			instr += "  documents: [{path: " + g.pick("0", "0", "0", "1", "-1", "9223372036854775807", "1e9", "null", "x") + ", overlays: " + list() + "}]\n"
		}
		nothing = false
	}
	if g.p(2) { // many files and many overlays
		common, own := "[]", "[]"
		if g.p(30) {
			common = list()
		}
		if g.p(30) {
			own = list()
		}
		instr = "commonOverlays: " + common + "\nyamlFiles:\n"
		k := 10 + g.n(120)
		if g.p(12) {
			k = 250 + g.n(1100)
			t.count("hundreds_of_files")
		}
		for ; k > 0; k-- {
			n := fmt.Sprintf("many/d%d/f%d.yaml", g.n(5), k)
			c.Files[n] = "a: {b: 1, c: [1, 2]}\n"
			if g.p(1) {
				c.Files[n] = g.pick(unusualSource...)
			}
			instr += "- path: " + n + "\n"
			instr += "  overlays: " + own + "\n"
		}
		nothing = false
		t.count("many_files")
	}
	if g.p(50) {
		src = ""
		sg := t.gen()
		sg.wild, sg.anchors, sg.tags, sg.comments = true, g.p(50), g.p(50), g.n(50)
		text, _ := sg.goodStream(1+g.n(3), func() *G { return sg.mapping(3) })
		src = text
		nothing = false
	}
	// known good scenarios to mutate
	if g.p(35) {
		f := g.failBase()
		fc := f.build(g)
		instr, src = fc.Files["i.yaml"], clipText(fc.Files[f.sources[0]], 3000)
		for n, v := range fc.Files {
			if strings.HasPrefix(n, "src/") {
				c.Files[n] = clipText(v, 3000)
			}
		}
		nothing = false
	}
	mutated := ""
	pool := []string{instr, src, goodOverlays[g.n(len(goodOverlays))], g.pick(unusualSource...)}
	mut := func(s string) string {
		switch {
		case g.p(40):
			return g.mutTree(s)
		case g.p(30):
			return g.mutBytes(g.mutTree(s), pool)
		}
		return g.mutBytes(s, pool)
	}
	if g.p(30) {
		instr = mut(instr)
		mutated += "instructions "
	}
	if g.p(35) {
		src = mut(src)
		mutated += "source "
	}
	c.Files["src/s.yaml"] = src
	c.Files["src/f0.yaml"] = src
	c.Files["i.yaml"] = instr
	c.Args = []string{"-i", "i.yaml"}
	switch g.n(10) {
	case 0:
		v := "x: 1\nl: [a, {b: c}]\n? [k]\n: v\n1: 2\nt: 2001-01-01\n"
		c.Files["v.yaml"] = v
		c.Files["v2.yaml"] = mut(v)
		c.Args = append(c.Args, "-f", "v.yaml", "-f", "v2.yaml")
		mutated += "values "
	case 1:
		v := "indentLevel: 3\noutputStyle: [flow]\nremoveComments: true\nlogLevel: debug\nstdout: false\n"
		c.Files["conf.yaml"] = mut(v)
		c.Args = append(c.Args, "--config", "conf.yaml")
		mutated += "configuration "
	case 2:
		c.Args = []string{"-p", "-"}
		c.Stdin = src
		mutated += "stdin "
	}
	if g.p(25) {
		q, x := g.pick(anyQueries...), g.pick("1", "{a: 1}", "[]", "", "null", "%v", "&a [*a]", "a: b: c")
		if g.p(50) {
			q = g.mutBytes(q, pool)
		}
		if g.p(50) {
			x = g.mutBytes(x, pool)
		}
		c.Args = append(c.Args, "-q", q, "-x", x)
		if g.p(50) {
			c.Args = append(c.Args, "-a", g.pick("merge", "replace", "delete", "combine", "", "null", "[]", "5"))
		}
		mutated += "flags "
	}
	if g.p(12) {
		for k := 1 + g.n(3); k > 0; k-- {
			c.Args = append(c.Args, g.pick(fuzzFlags...))
			if g.p(70) {
				c.Args = append(c.Args, g.pick("", "x", "0", "-1", "99999999999", "1.5", "src", "i.yaml", "conf.yaml", "[a, b]", "flow,,", "bash", "zsh", "YOT_STDOUT", "\xff", "/dev/null", "src/s.yaml"))
			}
		}
		mutated += "flags "
	}
	if g.p(25) {
		for _, st := range []string{"flow", "tagged", "doubleQuoted", "singleQuoted", "literal", "folded"} {
			if g.p(25) {
				c.Args = append(c.Args, "-S", st)
			}
		}
		if g.p(50) {
			c.Args = append(c.Args, "-I", fmt.Sprint(g.n(40)))
		}
	}
	if g.p(15) {
		c.Env[g.pick("YOT_INDENT_LEVEL", "YOT_OUTPUT_STYLE", "YOT_STDOUT", "YOT_REMOVE_COMMENTS", "YOT_LOG_LEVEL", "YOT_DEFAULT_ON_MISSING_ACTION", "YOT_CONFIG_FILE", "YOT_OUTPUT_DIRECTORY")] = g.pick("", "x", "-1", "999999999999999999999", "true", "[flow, x]", "inject", "1e3", "debug", "src", "\xff")
	}
	if g.p(20) {
		c.Args = append(c.Args, "-v=debug")
	}
	if g.p(50) {
		c.Args = append(c.Args, "-s")
	}
	if g.p(30) {
		c.Args = append(c.Args, "--remove-comments")
	}
	if g.p(30) {
		c.Args = append(c.Args, "--default-on-missing-action=inject")
	}
	for k, v := range c.Env { // neither arguments nor the environment can have zero bytes
		c.Env[k] = strings.ReplaceAll(v, "\x00", "")
	}
	for i, a := range c.Args {
		c.Args[i] = strings.ReplaceAll(a, "\x00", "")
	}
	if strings.Contains(instr, "path: /") || strings.Contains(instr, "path\" : \"/") || strings.Contains(instr, "../..") {
		t.skip("paths outside of the case")
		return
	}
	loops := strings.Join([]string{instr, src, strings.Join(c.Args, "\n"), c.Files["v2.yaml"]}, "\n")
	if i := strings.Index(loops, "%v{"); i >= 0 && strings.ContainsAny(loops[i:], ":bt") && sedLoop(loops) {
		t.skip("a sed command which may loop")
		return
	}
	if mutated == "" && nothing {
		mutated = "unusual"
	}
	var names []string
	for n := range c.Files {
		names = append(names, n, c.Files[n])
	}
	sort.Strings(names)
	t.sig(names, c.Args, c.Env, c.Stdin)
	r := t.run(c)
	if r == nil {
		return
	}
	for _, m := range strings.Fields(mutated) {
		t.count("mutated_" + m)
	}
	if cr := r.Crash(); cr != "" {
		t.fail(c, r, cr)
		return
	}
	if r.Exit != 0 && strings.TrimSpace(r.Stderr) == "" {
		t.fail(c, r, "ends with a non-zero status without a message")
	}
}

var lenders = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C11", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C21", "C22", "C23", "C24", "C26", "C27", "C28"}

// borrowedCase runs the workload of another check, as it is or with a mutation, and only looks for crashes and hangs.
func borrowedCase(t *T, g *Gen) {
	t.only = func(c *Case, r *Result, msg string) string {
		if r == nil {
			return ""
		}
		return r.Crash()
	}
	t.borrow(g, g.pick(lenders...))
}

// borrow runs the workload of another check, whose own verdicts do not count, as it is or with a mutation.
func (t *T) borrow(g *Gen, id string) {
	if g.p(40) {
		left := 1
		t.mutate = func(c *Case) {
			var names []string
			for n := range c.Files {
				names = append(names, n)
			}
			if left--; left < 0 || len(names) == 0 {
				return
			}
			sort.Strings(names)
			n := names[g.n(len(names))]
			m := g.mutTree(c.Files[n])
			if g.p(20) {
				m = g.mutBytes(c.Files[n], names)
			}
			if strings.Contains(m, "path: /") || strings.Contains(m, "path\" : \"/") || strings.Contains(m, "../..") || sedLoop(m) {
				return
			}
			c.Files[n] = m
			t.count("mutated_other_workload")
		}
	}
	props[id].perCase(t)
	t.only, t.mutate, t.watch = nil, nil, nil
	t.count("workload_of_" + id)
}

// sedLoop: markers with labels or branches could loop by themselves.
func sedLoop(s string) bool {
	for {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			return false
		}
		s = s[i+1:]
		j := strings.IndexByte(s, '}')
		if j < 0 {
			j = len(s)
		}
		if strings.Contains(s[:j], ":") && strings.ContainsAny(s[:j], "btT") && !strings.Contains(s[:j], ": ") {
			return true
		}
	}
}

func init() {
	register(&Prop{id: "C20", quick: 12000, thorough: 200000,
		rule:    "a case feeds yot unusual constructs (from lists of empty, null, recursive, tagged and deleted things), generated documents and valid instructions, most of them mutated byte-wise (tokens of YAML, JSONPath and yot, splices, truncation) or structurally (kinds exchanged, entries repeated or removed, anchors and recursive aliases, tags, depth), in source, instruction, values and configuration files, standard input, flags and environment; any panic, signal, other exit status, missing message or run which the watchdog ends is a violation; distinct by all inputs",
		assume:  []string{"sed commands with labels and branches are left out, templates which loop are not generated", "alias expansion bombs are not generated", "a run is taken as endless if three attempts did not end within 60 s each"},
		min:     map[string]int64{"exit_0": 50, "exit_1": 100},
		perCase: fuzzCase})
}
