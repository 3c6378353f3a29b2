package main

import (
	"fmt"
	"strings"

	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"gopkg.in/yaml.v3"
)

// step is one step of the way from the root of a document to a node.
type step struct {
	key string
	idx int
	seq bool
	n   int // length of the sequence
}

// loc is a node of a document and the way to it.
type loc struct {
	steps []step
	node  *Node
	paren *Node
}

func locs(d *Node) []loc {
	var r []loc
	var walk func(n *Node, s []step, parent *Node)
	walk = func(n *Node, s []step, parent *Node) {
		if len(s) > 0 {
			r = append(r, loc{append([]step{}, s...), n, parent})
		}
		switch n.Kind {
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Kind != yaml.ScalarNode {
					continue
				}
				walk(n.Content[i+1], append(s, step{key: n.Content[i].Value}), n)
			}
		case yaml.SequenceNode:
			for i, c := range n.Content {
				walk(c, append(s, step{idx: i, seq: true, n: len(n.Content)}), n)
			}
		}
	}
	if len(d.Content) > 0 {
		walk(d.Content[0], nil, nil)
	}
	return r
}

func (g *Gen) keyStep(k string, first bool) string {
	if isIdent(k) && g.p(80) {
		if first && g.p(60) {
			return k
		}
		return "." + k
	}
	if x := strings.ReplaceAll(k, `\`, ""); x != k && isIdent(x) && k[0] != '\\' && g.p(60) {
		return "." + strings.ReplaceAll(k, `\`, `\\`)
	}
	if g.p(15) {
		return `["` + strings.ReplaceAll(strings.ReplaceAll(k, `\`, `\\`), `"`, `\"`) + `"]`
	}
	if !strings.ContainsAny(k, `'\`) && g.p(50) {
		return "['" + k + "']"
	}
	if !strings.ContainsAny(k, `"\`) {
		return `["` + k + `"]`
	}
	return "['" + strings.ReplaceAll(strings.ReplaceAll(k, `\`, `\\`), "'", `\'`) + "']"
}

// exactPath writes the path of a node without expressions, apart from indices.
func (g *Gen) exactPath(steps []step) string {
	var b strings.Builder
	if g.p(35) {
		b.WriteString("$")
	}
	for _, s := range steps {
		if s.seq {
			if g.p(15) {
				fmt.Fprintf(&b, "[%d]", s.idx-s.n)
			} else {
				fmt.Fprintf(&b, "[%d]", s.idx)
			}
			continue
		}
		b.WriteString(g.keyStep(s.key, b.Len() == 0))
	}
	return fixLead(b.String())
}

func fixLead(q string) string {
	if strings.HasPrefix(q, "[") {
		return "$" + q
	}
	if strings.HasPrefix(q, ".") && !strings.HasPrefix(q, "..") {
		return "$" + q
	}
	if strings.HasPrefix(q, "..") {
		return "$" + q
	}
	return q
}

// exprPath writes a path which leads to the node and possibly to others.
func (g *Gen) exprPath(l loc, d *Node) string {
	steps := l.steps
	if g.p(15) && !steps[len(steps)-1].seq {
		k := steps[len(steps)-1].key
		if isIdent(k) {
			return "$.." + k
		}
		return "$..['" + strings.ReplaceAll(strings.ReplaceAll(k, `\`, `\\`), "'", `\'`) + "']"
	}
	var b strings.Builder
	if g.p(35) {
		b.WriteString("$")
	}
	cut := -1
	if g.p(20) && len(steps) > 1 {
		cut = g.n(len(steps) - 1) // everything up to here becomes ..
	}
	n := d.Content[0]
	for i, s := range steps {
		var next *Node
		if s.seq {
			next = n.Content[s.idx]
		} else {
			for j := 0; j+1 < len(n.Content); j += 2 {
				if n.Content[j].Kind == yaml.ScalarNode && n.Content[j].Value == s.key {
					next = n.Content[j+1]
				}
			}
		}
		if i <= cut {
			n = next
			if i == cut {
				b.Reset()
				b.WriteString("$.")
				if g.n(2) == 0 && i+1 < len(steps) && steps[i+1].seq {
					b.Reset()
					b.WriteString("$..")
				}
			}
			continue
		}
		switch {
		case s.seq && g.p(50):
			switch g.n(6) {
			case 0:
				b.WriteString("[*]")
			case 1:
				fmt.Fprintf(&b, "[%d:]", s.idx)
			case 2:
				fmt.Fprintf(&b, "[:%d]", s.idx+1)
			case 3:
				fmt.Fprintf(&b, "[%d,%d]", s.idx, g.n(s.n+1))
			case 4:
				fmt.Fprintf(&b, "[%d:%d]", g.n(s.idx+1), s.idx+1)
			default:
				b.WriteString(g.filter(next))
			}
		case s.seq:
			fmt.Fprintf(&b, "[%d]", s.idx)
		case g.p(25):
			if g.p(50) && b.Len() > 0 {
				b.WriteString("[*]")
			} else if b.Len() == 0 {
				b.WriteString("*")
			} else {
				b.WriteString(".*")
			}
		case g.p(12) && !strings.ContainsAny(s.key, `'\`):
			o := n.Content[2*g.n(len(n.Content)/2)].Value
			if strings.ContainsAny(o, `'\`) || o == s.key {
				o = "zz"
			}
			fmt.Fprintf(&b, "['%s','%s']", s.key, o)
		default:
			b.WriteString(g.keyStep(s.key, b.Len() == 0))
		}
		n = next
	}
	return fixLead(b.String())
}

// filter writes a filter which holds for the given sequence item.
func (g *Gen) filter(n *Node) string {
	if n.Kind == yaml.MappingNode && len(n.Content) >= 2 {
		i := 2 * g.n(len(n.Content)/2)
		k, v := n.Content[i], n.Content[i+1]
		if isIdent(k.Value) {
			if v.Kind == yaml.ScalarNode && v.Tag == "!!str" && !strings.ContainsAny(v.Value, "'\\\n") && g.p(70) {
				op := "=="
				if g.p(15) {
					op = "!="
				}
				return fmt.Sprintf("[?(@.%s%s'%s')]", k.Value, op, v.Value)
			}
			return fmt.Sprintf("[?(@.%s)]", k.Value)
		}
	}
	if n.Kind == yaml.ScalarNode && n.Tag == "!!int" {
		return fmt.Sprintf("[?(@==%s)]", n.Value)
	}
	return "[*]"
}

// query writes a query for a node, making sure that the library accepts it.
func (g *Gen) query(l loc, d *Node, expr int) string {
	for i := 0; i < 20; i++ {
		q := ""
		if g.p(expr) {
			q = g.exprPath(l, d)
		} else {
			q = g.exactPath(l.steps)
		}
		if p, err := yamlpath.NewPath(q); err == nil && q != "" {
			if r, ok := safeFind(p, d); ok && len(r) > 0 {
				return q
			}
		}
	}
	return g.exactPathSafe(l.steps)
}

func (g *Gen) exactPathSafe(steps []step) string {
	var b strings.Builder
	b.WriteString("$")
	for _, s := range steps {
		if s.seq {
			fmt.Fprintf(&b, "[%d]", s.idx)
		} else {
			b.WriteString("['" + strings.ReplaceAll(strings.ReplaceAll(s.key, `\`, `\\`), "'", `\'`) + "']")
		}
	}
	return b.String()
}

// missingPath writes a fully-qualified path which leads to nothing in the document.
func (g *Gen) missingPath(d *Node) (string, [][]string) {
	var steps []string
	if ls := locs(d); len(ls) > 0 && g.p(75) {
		l := ls[g.n(len(ls))]
		for _, s := range l.steps {
			if s.seq {
				break
			}
			steps = append(steps, s.key)
		}
		if len(steps) > 0 && g.p(30) {
			steps = steps[:len(steps)-1]
		}
	}
	for i := 0; i <= g.n(3); i++ {
		steps = append(steps, g.pick("new", "added", "inj", "x-new", "app.kubernetes.io/part", "with space", "é", `back\s`, "a,b", "it's", `say "hi" `, "x[0]", "a.b", "#", `'"`, `\\`, "$", "@", "~x", "?(", "(")+fmt.Sprint(g.n(4)))
	}
	var b strings.Builder
	if g.p(35) {
		b.WriteString("$")
	}
	var segs [][]string
	for i, s := range steps {
		if i == len(steps)-1 && g.p(12) {
			o := fmt.Sprintf("uni%d", g.n(5))
			if !strings.ContainsAny(s, `'\`) {
				b.WriteString("['" + s + "', '" + o + "']")
				segs = append(segs, []string{s, o})
				continue
			}
		}
		b.WriteString(g.keyStep(s, b.Len() == 0))
		segs = append(segs, []string{s})
	}
	return fixLead(b.String()), segs
}
