package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"sync/atomic"

	"gopkg.in/yaml.v3"
)

type Node = yaml.Node

type int64counter struct{ v int64 }

func (c *int64counter) add(n int64) { atomic.AddInt64(&c.v, n) }
func (c *int64counter) get() int64  { return atomic.LoadInt64(&c.v) }

// parseDocs reads a YAML stream with the library, a panic of the library is an error.
func parseDocs(text string) (docs []*Node, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic in the YAML library: %v", p)
		}
	}()
	d := yaml.NewDecoder(strings.NewReader(text))
	for {
		var n Node
		e := d.Decode(&n)
		if errors.Is(e, io.EOF) {
			return docs, nil
		}
		if e != nil {
			return nil, e
		}
		nn := n
		docs = append(docs, &nn)
	}
}

// encodeDocs writes documents the plain way, used to find out what the library itself can round-trip.
func encodeDocs(docs []*Node, style yaml.Style, indent int) (text string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic in the YAML library: %v", p)
		}
	}()
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	e.SetIndent(indent)
	n := 0
	b.WriteString("---\n")
	for _, d := range docs {
		if len(d.Content) == 0 {
			continue
		}
		setStyleAll(d, style)
		if d.FootComment != "" { // the library would add the line in front of the comment to the text
			l := d
			for len(l.Content) > 0 {
				l = l.Content[len(l.Content)-1]
			}
			if emptyEnd.MatchString(l.Value) && l.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 {
				l.Style = yaml.DoubleQuotedStyle
			}
		}
		place(d, false)
		if err := e.Encode(d); err != nil {
			return "", err
		}
		n++
	}
	if n > 0 {
		e.Close()
	}
	return b.String(), nil
}

// place moves line comments to where the library can write them: it loses those of block collections, and the one of
// a key makes a mess of a value in flow style or one with an anchor or tag.
func place(n *Node, flow bool) {
	move := func(to, from *string) {
		switch {
		case *from == "":
		case *to == "":
			*to, *from = *from, ""
		default:
			*to, *from = *to+"\n"+*from, ""
		}
	}
	flow = flow || n.Style&yaml.FlowStyle != 0
	for i, c := range n.Content {
		block := (c.Kind == yaml.MappingNode || c.Kind == yaml.SequenceNode) && len(c.Content) > 0 && !flow && c.Style&yaml.FlowStyle == 0
		if n.Kind == yaml.MappingNode && i%2 == 1 {
			k := n.Content[i-1]
			if block && (c.Anchor != "" || hasTag(c)) {
				move(&k.HeadComment, &k.LineComment)
				move(&k.HeadComment, &c.LineComment)
			} else if block {
				if k.LineComment == "" {
					move(&k.LineComment, &c.LineComment)
				} else {
					move(&k.HeadComment, &c.LineComment)
				}
			} else if c.LineComment == "" {
				move(&c.LineComment, &k.LineComment)
			} else {
				move(&k.HeadComment, &k.LineComment)
			}
		} else if block && n.Kind == yaml.SequenceNode {
			move(&c.HeadComment, &c.LineComment)
			if i+1 < len(n.Content) {
				move(&c.FootComment, &n.Content[i+1].HeadComment)
				move(&n.Content[i+1].HeadComment, &c.FootComment)
			}
		} else if block && n.Kind == yaml.DocumentNode {
			move(&n.HeadComment, &c.LineComment)
		}
		if !flow && c.Kind == yaml.ScalarNode && strings.Contains(c.LineComment, "\n") && c.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 &&
			(c.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 || strings.Contains(c.Value, "\n")) {
			// several lines after the indicator of a block scalar would become its text
			switch {
			case n.Kind == yaml.MappingNode && i%2 == 1:
				move(&n.Content[i-1].HeadComment, &c.LineComment)
			case n.Kind == yaml.DocumentNode:
				move(&n.HeadComment, &c.LineComment)
			default:
				move(&c.HeadComment, &c.LineComment)
			}
		}
		place(c, flow)
	}
}

// hasTag tells if the tag of a collection gets written.
func hasTag(n *Node) bool {
	t := n.ShortTag()
	return n.Style&yaml.TaggedStyle != 0 || t != "!!map" && t != "!!seq"
}

func setStyleAll(n *Node, s yaml.Style) {
	n.Style = s
	if n.Kind == yaml.ScalarNode {
		n.Style = safeStyle(s, n)
	}
	for _, c := range n.Content {
		setStyleAll(c, s)
	}
}

var (
	foldsBadly = regexp.MustCompile(`[\n\x{0085}\x{2028}\x{2029}][ \t\n\x{0085}\x{2028}\x{2029}]`)
	emptyEnd   = regexp.MustCompile(`[\n\x{0085}\x{2028}\x{2029}][\n\x{0085}\x{2028}\x{2029}]$`)
)

// safeStyle is the style in which the YAML library keeps the text.
func safeStyle(s yaml.Style, n *Node) yaml.Style {
	const block = yaml.LiteralStyle | yaml.FoldedStyle
	if s&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) != 0 {
		return s
	}
	isBlock := s&block != 0 || strings.Contains(n.Value, "\n")
	switch {
	case strings.IndexAny(n.Value, "\n\t\u0085\u2028\u2029") == 0, n.Value == "<<" && n.ShortTag() == "!!str", isBlock && strings.HasPrefix(n.Value, " "):
		return s&^block | yaml.DoubleQuotedStyle
	case s&yaml.FoldedStyle != 0 && foldsBadly.MatchString(n.Value):
		return s&^block | yaml.LiteralStyle
	}
	return s
}

func dropEmpty(docs []*Node) []*Node {
	var r []*Node
	for _, d := range docs {
		if len(d.Content) > 0 {
			r = append(r, d)
		}
	}
	return r
}

// canon renders the data of a node: kind, tag, exact scalar text, order; aliases are expanded, presentation and
// comments are left out.
func canon(n *Node) string {
	var b strings.Builder
	canonTo(&b, n, 0, map[*Node]bool{}, canonOpt{})
	return b.String()
}

type canonOpt struct {
	strings bool // treat every scalar as its text, without the type
	trim    bool
}

func canonStr(n *Node) string {
	var b strings.Builder
	canonTo(&b, n, 0, map[*Node]bool{}, canonOpt{strings: true})
	return b.String()
}

func canonTo(b *strings.Builder, n *Node, depth int, active map[*Node]bool, o canonOpt) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	ind := strings.Repeat("  ", depth)
	if n.Kind == yaml.AliasNode {
		if n.Alias == nil {
			fmt.Fprintf(b, "%s<undefined alias %s>\n", ind, n.Value)
			return
		}
		if active[n.Alias] {
			fmt.Fprintf(b, "%s<recursive>\n", ind)
			return
		}
		canonTo(b, n.Alias, depth, active, o)
		return
	}
	if b.Len() > 4<<20 {
		return
	}
	active[n] = true
	defer delete(active, n)
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 0 {
			b.WriteString("<empty document>\n")
		}
		for _, c := range n.Content {
			canonTo(b, c, depth, active, o)
		}
	case yaml.MappingNode:
		fmt.Fprintf(b, "%s%s{%d}\n", ind, tagOf(n), len(n.Content)/2)
		for i, c := range n.Content {
			if i%2 == 0 {
				b.WriteString(ind + " key\n")
			}
			canonTo(b, c, depth+1, active, o)
		}
	case yaml.SequenceNode:
		fmt.Fprintf(b, "%s%s[%d]\n", ind, tagOf(n), len(n.Content))
		for _, c := range n.Content {
			canonTo(b, c, depth+1, active, o)
		}
	case yaml.ScalarNode:
		v := n.Value
		t := tagOf(n)
		if t == "!!null" {
			v = "null"
		}
		if o.strings && (v == "Null" || v == "NULL") {
			v = "null"
		}
		if o.strings && t != "!!merge" {
			t = ""
		}
		if o.strings && t == "" && (v == "~" || v == "") {
			v = "null-or-empty"
		}
		if o.strings && v == "null" {
			v = "null-or-empty"
		}
		fmt.Fprintf(b, "%s%s %q\n", ind, t, v)
	default:
		fmt.Fprintf(b, "%s<kind %d>\n", ind, n.Kind)
	}
}

func tagOf(n *Node) string {
	t := n.ShortTag()
	if t == "" || t == "!" {
		switch n.Kind {
		case yaml.MappingNode:
			return "!!map"
		case yaml.SequenceNode:
			return "!!seq"
		case yaml.ScalarNode:
			return "!!str"
		}
	}
	return t
}

// comments lists all comments of a document with the path of the node they are attached to.
func commentsOf(n *Node) []string {
	var r []string
	var walk func(n *Node, path string)
	walk = func(n *Node, path string) {
		for _, c := range []struct{ k, v string }{{"head", n.HeadComment}, {"line", n.LineComment}, {"foot", n.FootComment}} {
			if v := strings.TrimSpace(c.v); v != "" {
				r = append(r, path+" "+c.k+": "+v)
			}
		}
		switch n.Kind {
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				k := n.Content[i]
				p := fmt.Sprintf("%s/%d:%s", path, i/2, k.Value)
				walk(k, p+"(key)")
				walk(n.Content[i+1], p)
			}
		default:
			for i, c := range n.Content {
				walk(c, fmt.Sprintf("%s/%d", path, i))
			}
		}
	}
	walk(n, "")
	return r
}

// allComments is the text of all comments, without their places.
func allComments(n *Node) []string {
	var r []string
	var walk func(n *Node)
	walk = func(n *Node) {
		for _, c := range []string{n.HeadComment, n.LineComment, n.FootComment} {
			if strings.TrimSpace(c) != "" {
				r = append(r, c)
			}
		}
		for _, c := range n.Content {
			walk(c)
		}
	}
	walk(n)
	return r
}

func canonDocs(docs []*Node) []string {
	var r []string
	for _, d := range docs {
		r = append(r, canon(d))
	}
	return r
}

// cmpDocs compares the data of two lists of documents and describes the first difference.
func cmpDocs(got, want []*Node) string { return cmpBy(got, want, canon) }

func cmpBy(got, want []*Node, f func(*Node) string) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		g, w := f(got[i]), f(want[i])
		if g != w {
			return fmt.Sprintf("document %d differs: %s", i, lineDiff(g, w))
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d documents, expected %d", len(got), len(want))
	}
	return ""
}

func lineDiff(g, w string) string {
	gl, wl := strings.Split(g, "\n"), strings.Split(w, "\n")
	for i := 0; ; i++ {
		if i >= len(gl) && i >= len(wl) {
			return "no difference"
		}
		a, b := "<end>", "<end>"
		if i < len(gl) {
			a = gl[i]
		}
		if i < len(wl) {
			b = wl[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: got %s, expected %s", i+1, strings.TrimSpace(a), strings.TrimSpace(b))
		}
	}
}

// cloneDocs makes a copy by way of a deep copy which keeps the identity of aliased nodes.
func cloneNode(n *Node) *Node { return cloneWith(n, map[*Node]*Node{}) }

func cloneWith(n *Node, seen map[*Node]*Node) *Node {
	if n == nil {
		return nil
	}
	if c, ok := seen[n]; ok {
		return c
	}
	c := *n
	seen[n] = &c
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, cloneWith(x, seen))
	}
	if n.Alias != nil {
		c.Alias = cloneWith(n.Alias, seen)
	}
	return &c
}

// expandDocs copies documents with every alias replaced by what it stands for.
func expandDocs(docs []*Node) []*Node {
	var r []*Node
	for _, d := range docs {
		r = append(r, expandNode(d, 0))
	}
	return r
}

func expandNode(n *Node, depth int) *Node {
	c := *n
	if n.Kind == yaml.AliasNode && n.Alias != nil && depth < 200 {
		c = *n.Alias
		c.HeadComment, c.LineComment, c.FootComment = n.HeadComment, n.LineComment, n.FootComment
		n = n.Alias
	}
	c.Anchor = ""
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, expandNode(x, depth+1))
	}
	return &c
}

func cloneDocs(docs []*Node) []*Node {
	var r []*Node
	for _, d := range docs {
		r = append(r, cloneNode(d))
	}
	return r
}

// resolveDocs copies documents, and replaces only the aliases whose anchor is not there any more.
func resolveDocs(docs []*Node) []*Node {
	r := cloneDocs(docs)
	for _, d := range r {
		resolveIn(d, map[string]*Node{}, 0)
	}
	return r
}

func resolveIn(n *Node, anchors map[string]*Node, depth int) {
	if n.Kind == yaml.AliasNode && n.Alias != nil && depth < 200 {
		if a := anchors[n.Value]; a != nil && (a == n.Alias || canon(a) == canon(n.Alias)) {
			return
		}
		c := *expandOne(n.Alias)
		c.HeadComment, c.LineComment, c.FootComment = n.HeadComment, n.LineComment, n.FootComment
		*n = c
	}
	if n.Anchor != "" {
		anchors[n.Anchor] = n
	}
	for _, c := range n.Content {
		resolveIn(c, anchors, depth+1)
	}
}

// expandOne copies a node without its anchors.
func expandOne(n *Node) *Node {
	c := *n
	c.Anchor = ""
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, expandOne(x))
	}
	return &c
}
