package main

import (
	"strings"

	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"gopkg.in/yaml.v3"
)

// keyQuery writes a query for the key of an entry of a mapping, possibly for other keys as well.
func (g *Gen) keyQuery(l loc, d *Node, expr int) string {
	last := l.steps[len(l.steps)-1].key
	up := l.steps[:len(l.steps)-1]
	for i := 0; i < 12; i++ {
		var q string
		switch {
		case !g.p(expr):
			q = g.exactPath(l.steps) + "~"
		case g.p(25) && isIdent(last):
			q = "$.." + last + "~"
		case g.p(35):
			q = g.exactPathSafe(up) + g.pick("[*]~", ".*~")
		case g.p(40) && len(l.paren.Content) >= 2:
			o := l.paren.Content[2*g.n(len(l.paren.Content)/2)].Value
			if strings.ContainsAny(o+last, `'\`) || o == last {
				continue
			}
			q = g.exactPathSafe(up) + "['" + last + "','" + o + "']~"
		default:
			q = g.exprPath(l, d)
			if strings.HasSuffix(q, "]") && !strings.HasSuffix(q, "']") && !strings.HasSuffix(q, `"]`) {
				continue
			}
			q += "~"
		}
		if p, err := yamlpath.NewPath(q); err == nil {
			if r, ok := safeFind(p, d); ok && len(r) > 0 {
				return q
			}
		}
	}
	return g.exactPathSafe(l.steps) + "~"
}

// keyValue makes the value of an overlay for keys.
func (g *Gen) keyValue(action string) *G {
	var x *G
	switch {
	case action == "merge" && g.p(65):
		x = sc(dquote(g.pick("app.kubernetes.io/%v", "%v-new", "pre-%v", "%v%v", "%v{s/a/b/}", "%v{s/^/x/}", "a%v{s/[a-e]/Q/g}z", "%v", "x %v: y", "%h%v", "- %v")))
	case action == "combine":
		x = sc(g.pick(`"-suffix"`, "x", "5", "true", `" y"`, `"é"`))
	case g.p(25):
		x = sc(wildKeys[g.n(len(wildKeys))])
	default:
		x = sc(g.pick("renamed", "my-new-label", "newkey", "renamed2", `"with space"`, `"a: b"`, "7", "true", `"7"`, `"app.kubernetes.io/part-of"`))
	}
	if g.p(25) {
		x.line = g.comment("ovline")
		if g.p(60) && action != "" {
			x.line += " old key was: " + g.pick("%v", "%v{s/a/b/}", "%h", "%v %f")
		}
	}
	return x
}

func keysCase(t *T) {
	g := t.gen()
	g.anchors = t.idx%5 == 0
	g.mergeKeys = t.idx%10 == 0
	if t.idx%2 == 0 {
		g.comments = 25
	}
	b := t.builder(g)
	b.sources(2, 3, b.doc)
	keys := 0
	b.spread(1+g.n(4), func(docs []*Node) *Ov {
		if g.p(20) { // the entries are used by other overlays as well
			return b.ov(docs, ovOpt{expr: 25, multi: 10, actions: []string{"merge", "replace", "delete"}})
		}
		isEntry := func(l loc) bool { return l.paren != nil && l.paren.Kind == yaml.MappingNode }
		d, l := b.pickLoc(docs, isEntry)
		if d == nil {
			return nil
		}
		o := &Ov{Action: g.pick("merge", "merge", "merge", "replace", "replace", "delete", "combine")}
		o.Query = []string{g.keyQuery(*l, d, 35)}
		for k := 0; k < 2 && g.p(25); k++ {
			if d2, l2 := b.pickLoc(docs, isEntry); d2 != nil {
				o.Query = append(o.Query, g.keyQuery(*l2, d2, 20))
				if o.Action == "delete" && g.p(30) {
					o.Query = append(o.Query, g.query(*l2, d2, 0)) // the value of the same entry
				}
			}
		}
		if o.Action != "delete" {
			o.Value = g.keyValue(o.Action)
		}
		if g.p(10) {
			o.HasDQ, o.Groups = true, [][]Cond{{{Query: []string{o.Query[0]}, Value: sc(dquote(l.steps[len(l.steps)-1].key))}}}
		}
		keys++
		return o
	})
	if keys == 0 {
		t.skip("no mapping")
		return
	}
	b.finish(t, judgeOpt{comments: true})
	t.addn("overlays_for_keys", int64(keys))
	t.addn("keys_renamed", int64(b.opts.trace.Keys))
}

func init() {
	register(&Prop{id: "C28", quick: 4500, thorough: 40000,
		rule:    "a case has overlays (merge, replace, combine, delete) whose queries name keys with ~ (exact paths, wildcards, unions, recursive descent, several queries), mixed with overlays for values; distinct by instructions and sources",
		assume:  []string{modelTrust, "an overlay which makes two keys of a mapping equal is left open"},
		min:     map[string]int64{"exit_0": 100, "keys_renamed": 500},
		perCase: keysCase})
}
