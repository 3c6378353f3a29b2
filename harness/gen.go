package main

import (
	"fmt"
	"math/rand"
	"strings"

	"gopkg.in/yaml.v3"
)

// G is a generated YAML node together with how it is written.
type G struct {
	kind   byte     // 'm' 's' 'v' (scalar), '*' (alias)
	raw    string   // scalar: text as written (single line), alias: anchor name
	block  []string // scalar: lines of a block scalar, raw is its header
	keys   []*G
	items  []*G // values of a map, items of a sequence
	anchor string
	tag    string
	flow   bool
	head   []string // comment lines above
	line   string
	foot   []string
	blank  bool // empty line above
}

func sc(raw string) *G             { return &G{kind: 'v', raw: raw} }
func qs(s string) *G               { return sc(dquote(s)) }
func (g *G) put(k, v *G) *G        { g.keys = append(g.keys, k); g.items = append(g.items, v); return g }
func (g *G) set(k string, v *G) *G { return g.put(sc(plainKey(k)), v) }
func newMap() *G                   { return &G{kind: 'm'} }
func newSeq(items ...*G) *G        { return &G{kind: 's', items: items} }

func (g *G) clone() *G {
	c := *g
	c.keys, c.items = nil, nil
	for _, k := range g.keys {
		c.keys = append(c.keys, k.clone())
	}
	for _, v := range g.items {
		c.items = append(c.items, v.clone())
	}
	return &c
}

func plainKey(k string) string {
	if isIdent(k) && !looksTyped(k) {
		return k
	}
	return dquote(k)
}

func looksTyped(s string) bool {
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() != "!!str"
}

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && (c >= '0' && c <= '9' || c == '-')) {
			return false
		}
	}
	return true
}

func dquote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r == 0x85 || r == 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func squote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// W writes G nodes as YAML text.
type W struct {
	b      strings.Builder
	step   int
	inSeq  bool // sequences in mappings are indented
	noComm bool
}

func (w *W) comments(l []string, ind int) {
	for _, c := range l {
		w.b.WriteString(strings.Repeat(" ", ind) + c + "\n")
	}
}

func (g *G) props() string {
	var p []string
	if g.anchor != "" {
		p = append(p, "&"+g.anchor)
	}
	if g.tag != "" {
		p = append(p, g.tag)
	}
	return strings.Join(p, " ")
}

func (g *G) flowText() string {
	pre := g.props()
	if pre != "" {
		pre += " "
	}
	switch g.kind {
	case '*':
		return "*" + g.raw
	case 'm':
		var p []string
		for i, k := range g.keys {
			p = append(p, k.flowText()+": "+g.items[i].flowText())
		}
		return pre + "{" + strings.Join(p, ", ") + "}"
	case 's':
		var p []string
		for _, v := range g.items {
			p = append(p, v.flowText())
		}
		return pre + "[" + strings.Join(p, ", ") + "]"
	}
	if g.block != nil {
		return pre + dquote(strings.Join(g.block, "\n")+"\n")
	}
	return pre + g.raw
}

func (g *G) flowSafe() bool {
	if g.kind == 'v' && g.block == nil && g.raw != "" && g.raw[0] != '"' && g.raw[0] != '\'' && strings.ContainsAny(g.raw, ",[]{}#:?") {
		return false
	}
	if g.kind == 'v' && g.raw == "" && g.block == nil {
		return false
	}
	if g.kind == '*' {
		return true
	}
	for i, c := range g.items {
		if !c.flowSafe() {
			return false
		}
		if g.kind == 'm' && (!g.keys[i].flowSafe() || g.keys[i].kind == '*') {
			return false
		}
	}
	return true
}

// value writes g after "key:" or "-" (the cursor is behind the indicator, no space yet).
func (w *W) value(g *G, ind int, compact bool) {
	pre := g.props()
	if pre != "" {
		pre = " " + pre
	}
	lc := ""
	if g.line != "" {
		lc = " " + g.line
	}
	switch {
	case g.kind == '*':
		w.b.WriteString(" *" + g.raw + lc + "\n")
	case g.kind == 'v' && g.block != nil:
		w.b.WriteString(pre + " " + g.raw + lc + "\n")
		for _, l := range g.block {
			if l == "" {
				w.b.WriteString("\n")
			} else {
				w.b.WriteString(strings.Repeat(" ", ind) + l + "\n")
			}
		}
	case g.kind == 'v':
		if g.raw == "" {
			w.b.WriteString(pre + lc + "\n")
		} else {
			w.b.WriteString(pre + " " + g.raw + lc + "\n")
		}
	case g.flow && g.flowSafe() || len(g.items) == 0:
		w.b.WriteString(pre + " " + strings.TrimPrefix(g.flowText(), strings.TrimSpace(pre)+" ") + lc + "\n")
	case compact && g.kind == 'm' && pre == "" && lc == "" && len(g.keys[0].head) == 0 && !g.keys[0].blank:
		// "- key: value": the first key stands behind the dash
		w.b.WriteString(strings.Repeat(" ", w.step-1))
		w.mapBody(g, ind, true)
	default:
		w.b.WriteString(pre + lc + "\n")
		w.body(g, ind)
	}
}

func (w *W) body(g *G, ind int) {
	if g.kind == 'm' {
		w.mapBody(g, ind, false)
		return
	}
	for _, v := range g.items {
		if v.blank {
			w.b.WriteString("\n")
		}
		w.comments(v.head, ind)
		w.b.WriteString(strings.Repeat(" ", ind) + "-")
		w.value(v, ind+w.step, true)
		if len(v.foot) > 0 {
			w.comments(v.foot, ind)
			w.b.WriteString("\n")
		}
	}
}

func (w *W) mapBody(g *G, ind int, first bool) {
	for i, k := range g.keys {
		if !first {
			if k.blank {
				w.b.WriteString("\n")
			}
			w.comments(k.head, ind)
			w.b.WriteString(strings.Repeat(" ", ind))
		}
		first = false
		v := g.items[i]
		kt := k.flowText()
		if k.kind == '*' {
			kt += " "
		}
		w.b.WriteString(kt + ":")
		sub := ind + w.step
		if v.kind == 's' && !w.inSeq && !(v.flow && v.flowSafe()) {
			sub = ind
		}
		w.value(v, sub, false)
		if len(k.foot) > 0 {
			w.comments(k.foot, ind)
			w.b.WriteString("\n")
		}
	}
}

// doc writes a whole document without the separator.
func (w *W) doc(g *G) {
	switch {
	case g.kind == 'v' || g.kind == '*' || (g.flow && g.flowSafe()) || len(g.items) == 0:
		w.comments(g.head, 0)
		if g.kind == 'v' && g.block != nil {
			w.b.WriteString("--- " + g.raw + "\n")
			for _, l := range g.block {
				w.b.WriteString("  " + l + "\n")
			}
			return
		}
		lc := ""
		if g.line != "" {
			lc = " " + g.line
		}
		w.b.WriteString(g.flowText() + lc + "\n")
	default:
		w.comments(g.head, 0)
		if p := g.props(); p != "" {
			w.b.WriteString("--- " + p + "\n")
		}
		w.body(g, 0)
	}
	w.comments(g.foot, 0)
}

// Gen generates documents and overlays.
type Gen struct {
	reads     bool // sed commands which read files
	frags     bool // … which are there
	r         *rand.Rand
	cid       int               // comment ids
	said      map[bool][]string // comments which were made, of sources and of overlays
	comments  int               // percentage of places with a comment
	anchors   bool              // anchors and aliases
	wild      bool              // unusual scalars and keys
	tags      bool
	markers   bool // text which looks like format markers in sources
	maxDepth  int
	width     int
	made      int      // nodes of the document
	size      byte     // 'w' wide, 'd' deep, 'm' many documents and overlays, 0 as usual
	names     []string // anchors defined so far
	nullKeys  bool
	mergeKeys bool // merge keys, keys with anchors and aliases as keys
	dupless   map[string]bool
	ovGs      []*G // the overlays of the instructions which were written last
}

func (g *Gen) n(k int) int             { return g.r.Intn(k) }
func (g *Gen) p(pct int) bool          { return g.r.Intn(100) < pct }
func (g *Gen) pick(l ...string) string { return l[g.r.Intn(len(l))] }

var plainScalars = []string{"1", "-7", "42", "0", "3.5", "true", "false", "null", "~", "abc", "some text", "nginx:1.19", "v1", "app", "http", "TCP", "8080", "50m", "1Gi", "x-y", "/var/lib", "a_b"}

var wildScalars = []string{
	"0x1F", "0o17", "0644", "1_000", "-0", "+5", "0b101", "123456789012345678901234567890", "9223372036854775807", "-9223372036854775808", "18446744073709551615",
	"1e3", "1.50", ".5", "-.inf", ".inf", ".nan", "1.0", "6.02e23", "-1.5E-3",
	"True", "FALSE", "yes", "no", "on", "off", "y", "n", "Null", "NULL", "",
	"2020-01-01", "2001-12-14t21:59:43.10-05:00", "2020-01-01 10:00:00",
	`"123"`, `"true"`, `"null"`, `'~'`, `"1.5"`, `"2020-01-01"`, `"0x1F"`, `""`, `''`, `"yes"`, `" lead"`, `"trail "`, `"a: b"`, `"- x"`, `"# no comment"`, `"a #b"`, `"tab\there"`, `"line1\nline2"`, `"line1\nline2\n"`, `"\nlead"`, `"a\n\n\nb"`, `"a\n  b\n c\n"`,
	`"it's"`, `'say "hi"'`, `"C:\\path\\x"`, `"é日本語"`, `"😀"`, `"\x07bell"`, `"\u0085"`, `"\u2028"`, `"\ufeff"`, `"\r\n"`, `"@at"`, `"` + "`" + `tick"`, `"&amp"`, `"*star"`, `"!bang"`, `"|"`, `">"`, `"{"`, `"}"`, `"["`, `"]"`, `","`, `"?"`, `":"`, `"-"`, `"="`, `"<<"`, `"---"`, `"..."`, `"%"`, `"100%"`, `"trail  \n"`, `"a\n# b\n"`, `"a # b\nc"`, `" "`, `"\n"`, `"a\t"`, `"? a"`, `"key: [x"`,
	"a,b", "x[0]", "http://h:80/p?q=1&r=2#f", "a:b", "-x", "--- a", "it's", "\\n", "日本", "C:\\x", "=", "a  b", "!!str 5", "!!int \"5\"", "!!float 1", "!!binary aGVsbG8=", "!Ref thing", "!!str", "!<tag:example.com,2000:t> v",
}

var keyNames = []string{"a", "b", "c", "d", "name", "labels", "spec", "image", "ports", "k1", "k2", "metadata", "replicas", "data", "x-y", "env"}
var wildKeys = []string{`"app.kubernetes.io/name"`, `"with space"`, "1", "2.5", "true", `"true"`, `"1"`, `"é"`, `"a:b"`, `"#x"`, `"-"`, `"it's"`, "null", `""`, `"日本"`, `"a.b"`, `"x[0]"`, `"*"`, `"$"`, `"@"`, `"~"`, "~", "2020-01-01", `"multi\nline"`, `"a,b"`, "yes", "[a, b]", "{x: 1}", "[]", `"a\\b"`, `"x\\\\y"`, `"q\"q"`, `"'\""`, `" lead"`, `"trail "`, `" k "`}

func (g *Gen) comment(kind string) string {
	own := strings.HasPrefix(kind, "ov")
	if l := g.said[own]; len(l) > 0 && g.p(8) { // the same text again
		return l[g.n(len(l))]
	}
	c := g.newComment(kind)
	if g.said == nil {
		g.said = map[bool][]string{}
	}
	g.said[own] = append(g.said[own], c)
	return c
}

func (g *Gen) newComment(kind string) string {
	g.cid++
	c := fmt.Sprintf("# %s%d", kind, g.cid)
	if g.wild && g.p(10) {
		c += g.pick(" with: colon", " 'q\"", " #hash", " - dash", " {x}", " é", " %d", " \\n")
	}
	switch g.n(40) {
	case 0, 1:
		c = "#" + strings.TrimPrefix(c, "# ")
	case 2:
		c = "#" + c
	case 3:
		c = "#  " + c
	case 4:
		c = "#!" + strings.TrimPrefix(c, "#")
	}
	return c
}

func (g *Gen) scalar() *G {
	if g.markers && g.p(25) {
		return sc(g.pick(`"%v"`, `"%h %l %u"`, `"100%f"`, `"a%kb"`, `"%v{s/a/b/}"`, `"x %v y"`, `"%%v"`, `'C:\tmp\new'`, `'a\nb \1 \\ &'`, `'$1 ${0} $'`, `'s/x/y/g; p'`))
	}
	if g.p(4) || g.size == 'w' && g.p(25) { // the text of a key
		if g.size == 'w' && g.p(75) {
			return sc(fmt.Sprintf("u%d", g.cid+g.n(12)))
		}
		return sc(keyNames[g.n(len(keyNames))])
	}
	if !g.wild || g.p(45) {
		return sc(plainScalars[g.n(len(plainScalars))])
	}
	switch g.n(10) {
	case 0:
		lines := []string{g.pick("first", "a: b", "#x", "- y", "x # y"), g.pick("", "  indented", "second"), g.pick("last", "end  x", "last  ", "# no comment")}
		return &G{kind: 'v', raw: g.pick("|", "|-", "|+"), block: lines}
	case 1:
		return &G{kind: 'v', raw: g.pick(">", ">-"), block: []string{"folded", g.pick("text", "", "more", "# x"), g.pick("end", "end", "# no comment", "end ")}}
	case 2:
		w := g.word(40 + g.n(200))
		if g.p(10) {
			w = g.word(240 + g.n(1500))
		}
		return sc(dquote(g.pick("", "", "", " ", "\n") + w + g.pick("", "", "", " ", "  ", "\n", " \n")))
	}
	s := wildScalars[g.n(len(wildScalars))]
	if strings.HasPrefix(s, "!") && !g.tags {
		s = "abc"
	}
	return sc(s)
}

func (g *Gen) word(n int) string {
	const l = "abcdefghij klmnop qrstuvwxyz-_./"
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(l[g.n(len(l))])
	}
	return strings.TrimSpace(b.String())
}

func (g *Gen) key(used map[string]bool) *G {
	for i := 0; i < 20; i++ {
		k := keyNames[g.n(len(keyNames))]
		if g.wild && g.p(20) {
			k = wildKeys[g.n(len(wildKeys))]
		} else if g.p(15) {
			k = fmt.Sprintf("k%d", g.n(50))
		} else if g.markers && g.p(6) {
			k = g.pick(`"%k"`, `"%v"`, `"%h"`, `"x-%k"`, `"%k-%v"`, `"%%k"`, `"50%"`)
		}
		if !strings.HasPrefix(k, `"`) && g.p(6) { // the case makes another key
			if u := strings.ToUpper(k); u != k && k != "true" && k != "null" && k != "yes" {
				k = g.pick(u, u[:1]+k[1:])
			}
		}
		id := strings.Trim(k, `"`)
		if id == "~" || id == "null" || id == "" {
			id = "~"
		}
		if !used[id] {
			used[id] = true
			return sc(k)
		}
	}
	g.cid++
	k := fmt.Sprintf("u%d", g.cid)
	used[k] = true
	return sc(k)
}

func (g *Gen) node(depth int) *G {
	if g.anchors && len(g.names) > 0 && g.p(12) {
		return &G{kind: '*', raw: g.names[g.n(len(g.names))]}
	}
	var x *G
	g.made++
	switch k := g.n(10); {
	case depth <= 0 || g.made > 600 || k < 4 && (g.size != 'd' || g.p(40)) || g.size == 'w' && depth < g.maxDepth && k < 7:
		x = g.scalar()
	case k < 8:
		x = g.mapping(depth - 1)
	default:
		x = g.sequence(depth - 1)
	}
	if g.anchors && x.kind != '*' && x.props() == "" && !strings.HasPrefix(x.raw, "!") && g.p(15) {
		name := fmt.Sprintf("n%d", len(g.names)+1)
		x.anchor = name
		g.names = append(g.names, name)
	}
	if g.tags && x.kind != 'v' && x.kind != '*' && g.p(4) {
		x.tag = g.pick("!custom", "!!omap", "!Fn::Sub")
	}
	return x
}

func (g *Gen) mapping(depth int) *G {
	m := newMap()
	used := map[string]bool{}
	n := 1 + g.n(g.width)
	if g.p(4) {
		n = 0
	}
	for i := 0; i < n; i++ {
		k := g.key(used)
		if g.mergeKeys && g.anchors && g.p(5) {
			k.anchor = fmt.Sprintf("n%d", len(g.names)+1)
			g.names = append(g.names, k.anchor)
		}
		v := g.node(depth)
		g.decorate(k, v, i > 0)
		m.put(k, v)
	}
	if g.mergeKeys && g.anchors && len(g.names) > 0 {
		a := func() *G { return &G{kind: '*', raw: g.names[g.n(len(g.names))]} }
		switch g.n(8) {
		case 0:
			m.put(sc("<<"), a())
		case 1:
			x := newSeq(a(), a())
			x.flow = true
			m.put(sc("<<"), x)
		case 2:
			m.put(a(), sc("1"))
		}
	}
	m.flow = g.p(12)
	if m.flow {
		stripComments(m)
	}
	return m
}

func (g *Gen) sequence(depth int) *G {
	s := newSeq()
	n := 1 + g.n(g.width)
	if g.p(5) {
		n = 0
	}
	uniform := g.p(40)
	for i := 0; i < n; i++ {
		var v *G
		if uniform && depth > 0 {
			v = newMap().set("name", sc(fmt.Sprintf("item%d", i)))
			for j := 0; j < g.n(3); j++ {
				v.set(fmt.Sprintf("f%d", j), g.node(depth-1))
			}
		} else {
			v = g.node(depth)
		}
		g.decorate(v, v, i > 0)
		s.items = append(s.items, v)
	}
	s.flow = g.p(12)
	if s.flow {
		stripComments(s)
	}
	return s
}

// decorate adds comments: head and foot to the key (or item), line to a scalar value.
func (g *Gen) decorate(k, v *G, notFirst bool) {
	if g.comments == 0 {
		return
	}
	if g.p(g.comments) {
		k.head = append(k.head, g.comment("head"))
		for g.p(20) {
			if g.p(25) {
				k.head = append(k.head, "#")
			}
			k.head = append(k.head, g.comment("head"))
		}
	}
	if (v.kind == 'v' || v.kind == '*') && g.p(g.comments) {
		v.line = g.comment("line")
	}
	if (v.kind == 'm' || v.kind == 's') && g.p(g.comments/4) {
		v.line = g.comment("line")
	}
	if g.p(g.comments/3) && (v.kind == 'v' && v.block == nil) {
		k.foot = append(k.foot, g.comment("foot"))
	}
	if g.p(5) && notFirst {
		k.blank = true
	}
}

func stripComments(x *G) {
	x.head, x.foot, x.line, x.blank = nil, nil, "", false
	for _, k := range x.keys {
		stripComments(k)
	}
	for _, v := range x.items {
		stripComments(v)
	}
}

// document makes a document whose root is mostly a mapping.
func (g *Gen) document() *G {
	g.names, g.made = nil, 0
	d := g.maxDepth
	switch k := g.n(40); {
	case k == 0 && g.wild:
		return g.scalar()
	case k < 3:
		return g.sequence(d)
	}
	m := g.mapping(d)
	for len(m.items) == 0 {
		m = g.mapping(d)
	}
	m.flow = false
	return m
}

// k8s makes a realistic document.
func (g *Gen) k8s() *G {
	kind := g.pick("Deployment", "Service", "ConfigMap", "Pod", "Namespace")
	name := g.pick("web", "db", "cache", "api", "front")
	m := newMap()
	m.set("apiVersion", sc(g.pick("v1", "apps/v1"))).set("kind", sc(kind))
	meta := newMap().set("name", sc(name))
	if g.p(70) {
		meta.set("namespace", sc(g.pick("default", "prod", "dev")))
	}
	if g.p(75) {
		l := newMap().set("app.kubernetes.io/name", sc(name)).set("tier", sc(g.pick("front", "back")))
		if g.p(40) {
			l.set("owner", qs("team-"+g.word(4)))
		}
		meta.set("labels", l)
	}
	if g.p(40) {
		meta.set("annotations", newMap().set("note", qs(g.word(20))).set("rev", qs(fmt.Sprint(g.n(9)))))
	}
	m.set("metadata", meta)
	switch kind {
	case "Deployment", "Pod":
		cs := newSeq()
		for i := 0; i <= g.n(3); i++ {
			c := newMap().set("name", sc(fmt.Sprintf("c%d", i))).set("image", sc(g.pick("nginx:1.19", "redis:6", "busybox")))
			if g.p(50) {
				c.set("ports", newSeq(newMap().set("containerPort", sc(fmt.Sprint(8000+g.n(9)))).set("protocol", sc("TCP"))))
			}
			if g.p(30) {
				c.set("env", newSeq(newMap().set("name", sc("A")).set("value", qs("1")), newMap().set("name", sc("B")).set("value", qs("x"))))
			}
			cs.items = append(cs.items, c)
		}
		spec := newMap().set("containers", cs)
		if kind == "Deployment" {
			spec = newMap().set("replicas", sc(fmt.Sprint(1+g.n(5)))).set("paused", sc(g.pick("true", "false"))).
				set("template", newMap().set("metadata", newMap().set("labels", newMap().set("app", sc(name)))).set("spec", spec))
		}
		m.set("spec", spec)
	case "Service":
		m.set("spec", newMap().set("type", sc("ClusterIP")).set("selector", newMap().set("app", sc(name))).
			set("ports", newSeq(newMap().set("name", sc("http")).set("port", sc("80")).set("targetPort", sc("http")))))
	case "ConfigMap":
		m.set("data", newMap().put(sc(`"app.conf"`), &G{kind: 'v', raw: "|", block: []string{"key = value", "  indented", "# not a comment"}}).set("num", sc(`"5"`)))
	}
	if g.comments > 0 {
		g.sprinkle(m)
	}
	return m
}

// sprinkle adds comments to an existing tree.
func (g *Gen) sprinkle(x *G) {
	for i, v := range x.items {
		k := v
		if x.kind == 'm' {
			k = x.keys[i]
		}
		g.decorate(k, v, i > 0)
		g.sprinkle(v)
	}
}

// stream writes documents as one YAML stream.
func (g *Gen) stream(docs []*G) string {
	w := &W{step: 2, inSeq: g.p(70)}
	if g.p(25) {
		w.step = 4
	}
	for i, d := range docs {
		if i > 0 || g.p(60) {
			w.b.WriteString("---\n")
		}
		if g.comments > 0 && g.p(g.comments/2) && len(d.items) > 0 {
			w.b.WriteString(g.comment("doc") + "\n\n")
		}
		var sub W
		sub.step, sub.inSeq = w.step, w.inSeq
		sub.doc(d)
		t := sub.b.String()
		if strings.HasPrefix(t, "--- ") && strings.HasSuffix(w.b.String(), "---\n") {
			s := strings.TrimSuffix(w.b.String(), "---\n")
			w.b.Reset()
			w.b.WriteString(s)
		}
		w.b.WriteString(t)
		if g.comments > 0 && g.p(g.comments/3) && len(d.items) > 0 {
			w.b.WriteString("\n" + g.comment("docfoot") + "\n")
		}
	}
	if g.p(5) {
		w.b.WriteString("...\n")
	}
	return w.b.String()
}

// goodStream generates documents until the library can read the text, and returns text and documents.
func (g *Gen) goodStream(n int, mk func() *G) (string, []*Node) {
	for i := 0; i < 50; i++ {
		var docs []*G
		for j := 0; j < n; j++ {
			docs = append(docs, mk())
		}
		t := g.stream(docs)
		if d, err := parseDocs(t); err == nil && len(d) == n {
			ok := true
			for _, x := range d {
				ok = ok && !tooLarge(x)
			}
			if ok {
				return t, d
			}
		}
	}
	t := strings.Repeat("---\na: 1\nb: {c: 2}\n", n)
	d, _ := parseDocs(t)
	return t, d
}
