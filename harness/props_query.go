package main

import (
	"fmt"
	"strings"

	"gopkg.in/yaml.v3"
)

// condFor makes a condition about one of the places of a document: the value there, a changed value, only a query,
// or a query for something else.
func (b *Builder) condFor(d *Node) (Cond, bool) {
	g := b.g
	ls := locs(d)
	if len(ls) == 0 {
		return Cond{}, false
	}
	l := ls[g.n(len(ls))]
	c := Cond{Query: []string{g.query(l, d, 45)}}
	if g.p(12) {
		q, _ := g.missingPath(d)
		if g.p(50) {
			c.Query = []string{q}
		} else {
			c.Query = append(c.Query, q)
		}
	}
	if g.p(12) {
		l2 := ls[g.n(len(ls))]
		c.Query = append(c.Query, g.query(l2, d, 30))
	}
	n := l.node
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	switch g.n(10) {
	case 0, 1:
	case 2, 3, 4, 5:
		c.Value = g.gOf(n)
	case 6, 7:
		c.Value = g.mutate(g.gOf(n))
	default:
		l2 := ls[g.n(len(ls))]
		n2 := l2.node
		if n2.Kind == yaml.AliasNode {
			n2 = n2.Alias
		}
		c.Value = g.gOf(n2)
	}
	if c.Value != nil {
		if g.p(20) && c.Value.kind == 'v' && c.Value.block == nil {
			c.Value.line = "# a comment"
		} else if g.p(10) && !c.Value.flow {
			c.Value.head = []string{"# above"}
			if c.Value.kind == 'v' {
				c.Value.head = nil
			}
		}
	}
	return c, true
}

func (b *Builder) groups(docs []*Node) [][]Cond {
	g := b.g
	var gs [][]Cond
	for i := g.n(4); i > 0; i-- {
		var cs []Cond
		d := docs[g.n(len(docs))]
		for j := g.n(4); j > 0; j-- {
			if g.p(20) {
				d = docs[g.n(len(docs))]
			}
			if c, ok := b.condFor(d); ok {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 && g.p(70) {
			continue
		}
		gs = append(gs, cs)
		if len(gs) > 1 && len(cs) > 0 && g.p(20) { // the conditions of an earlier group, some with other values, and more
			old := gs[g.n(len(gs)-1)]
			var more []Cond
			for _, c := range old {
				if c.Value != nil && g.p(50) {
					c.Value = nil
				}
				more = append(more, c)
			}
			more = append(more, cs...)
			if g.p(30) {
				gs = append(gs, []Cond{{Query: []string{"$..nothing"}}})
			}
			gs = append(gs, more)
		}
		if len(cs) > 0 && g.p(25) { // the same queries with other values, before or after
			var other []Cond
			for _, c := range cs {
				if c.Value != nil {
					c.Value = g.mutate(c.Value.clone())
				}
				other = append(other, c)
			}
			gs = append(gs, other)
			if n := len(gs); g.p(60) {
				gs[n-1], gs[n-2] = gs[n-2], gs[n-1]
			}
		}
	}
	return gs
}

func docQueryCase(t *T) {
	g := t.gen()
	g.anchors = t.idx%4 == 0
	g.tags = t.idx%6 == 0
	if t.idx%3 == 0 {
		g.comments = 15
	}
	b := t.builder(g)
	b.sources(3, 4, b.doc)
	n := 1 + g.n(4)
	id := 0
	mk := func(docs []*Node) *Ov {
		if len(docs) == 0 {
			return nil
		}
		id++
		o := &Ov{Action: "merge", Query: []string{"$"}, Value: newMap().set(fmt.Sprintf("hit%d", id), sc(fmt.Sprint(id)))}
		switch g.n(6) {
		case 0:
			if x := b.ov(docs, ovOpt{expr: 30, actions: []string{"merge", "replace", "delete"}}); x != nil {
				o = x
			}
		case 1:
			o = &Ov{Action: g.pick("merge", "replace"), Query: []string{fmt.Sprintf("made.hit%d", id)}, Value: sc(fmt.Sprint(id)), Missing: "inject"}
		case 2:
			o = &Ov{Action: "merge", Query: []string{fmt.Sprintf("$..nothing%d", id)}, Value: sc("1"), Missing: "inject", Inject: []string{fmt.Sprintf("made.by.path%d", id)}}
		}
		o.HasDQ, o.Groups = true, b.groups(docs)
		return o
	}
	b.spreadNoDocs(n, mk)
	b.finish(t, judgeOpt{})
}

// spreadNoDocs is spread without documents entries, which have no documentQuery.
func (b *Builder) spreadNoDocs(count int, mk func(docs []*Node) *Ov) {
	if b.g.size == 'm' && b.g.p(50) {
		count += b.g.n(30)
	}
	nc := b.g.n(count + 1)
	for i := 0; i < nc; i++ {
		b.addCommon(func() *Ov { return mk(b.inScope(all)) })
	}
	for i := nc; i < count; i++ {
		f := b.files[b.g.n(len(b.files))]
		b.addFile(f, func() *Ov { return mk(b.inScope(func(x *bFile, i int) bool { return x == f })) })
	}
}

// onMissingCase: overlays whose queries find nothing in some documents.
func onMissingCase(t *T) {
	g := t.gen()
	g.anchors = t.idx%4 == 0
	if t.idx%3 == 0 {
		g.comments = 15
	}
	b := t.builder(g)
	def := g.n(6) // how the default action is given
	switch def {
	case 0, 1:
		b.opts.inject = true
		b.s.Inject = true
	case 2:
		b.opts.inject = true
		b.s.Env = map[string]string{"YOT_DEFAULT_ON_MISSING_ACTION": g.pick("inject", "Inject")}
	case 3:
		b.opts.inject = true
		b.s.Sources["conf.yaml"] = "defaultOnMissingAction: inject\n"
		b.s.Extra = append(b.s.Extra, "--config", "conf.yaml")
	case 4:
		b.s.Env = map[string]string{"YOT_DEFAULT_ON_MISSING_ACTION": "ignore"}
	}
	b.s.effInject = b.opts.inject
	b.sources(3, 3, b.doc)
	mk := func(docs []*Node) *Ov {
		if len(docs) == 0 {
			return nil
		}
		d := docs[g.n(len(docs))]
		o := &Ov{Action: g.pick("merge", "merge", "replace", "replace", "", "delete", "combine")}
		q, _ := g.missingPath(d)
		o.Query = []string{q}
		switch g.n(10) {
		case 0, 1:
			for k := g.n(3); k > 0; k-- {
				q, _ := g.missingPath(d)
				o.Query = append(o.Query, q)
				if c := q[len(q)-1]; g.p(15) && c != ']' && c != '\'' {
					o.Query = append(o.Query, q+g.pick("s", "2", "-x"))
				}
			}
		case 2, 3, 4:
			o.Query = []string{g.pick("$..nothing", "none.*", "$.a.zz[*]", "$..[?(@.zz=='x')]", "b[7]", "zz[0].x", "$.*.zz", "zz~", "$.a.zz~", "$.zz[*]~", "$['zz']~", "spec.zz[?(@.a)]", "..zz")}
			if g.p(20) {
				o.Query = append(o.Query, q)
			}
		case 5:
			// found in some documents
			if d2, l := b.pickLoc(docs, nil); d2 != nil {
				o.Query = []string{g.query(*l, d2, 30)}
				if g.p(30) {
					o.Query = append(o.Query, q)
				}
			}
		}
		if o.Action != "delete" || g.p(30) {
			vg := &Gen{r: t.r, maxDepth: 2, width: 3, wild: g.wild}
			o.Value = unmark(vg.node(2))
			if o.Action == "combine" {
				o.Value = sc("5")
			}
			if g.p(8) {
				o.Value = g.pickG(newMap(), newSeq(), sc("null"), sc(`""`))
			}
		}
		o.Missing = g.pick("", "inject", "inject", "inject", "ignore", "Inject", "default")
		if g.p(50) {
			for k := g.n(3); k >= 0; k-- {
				p, _ := g.missingPath(d)
				if g.p(15) { // something in the way: a scalar, a list or an alias
					if _, l := b.pickLoc(docs, func(l loc) bool {
						for _, s := range l.steps {
							if s.seq {
								return false
							}
						}
						return true
					}); l != nil {
						p = g.exactPathSafe(l.steps) + "['below" + fmt.Sprint(k) + "']"
						if g.p(25) {
							p = g.exactPathSafe(l.steps)
						}
					}
				}
				o.Inject = append(o.Inject, p)
				if c := p[len(p)-1]; g.p(12) && c != ']' && c != '\'' { // the text of one path is the beginning of the other
					o.Inject = append(o.Inject, p+g.pick("s", "2", "-x"))
					if g.p(30) {
						k := len(o.Inject)
						o.Inject[k-1], o.Inject[k-2] = o.Inject[k-2], o.Inject[k-1]
					}
				}
			}
			if g.p(20) { // places which are there, possibly with the value already
				for k := 1 + g.n(3); k > 0; k-- {
					_, l := b.pickLoc([]*Node{d}, func(l loc) bool {
						for _, s := range l.steps {
							if s.seq {
								return false
							}
						}
						return l.node.Kind == yaml.ScalarNode && l.node.Anchor == ""
					})
					if l == nil {
						break
					}
					o.Inject = append(o.Inject, g.exactPathSafe(l.steps))
					if o.Action != "combine" && o.Value != nil && g.p(60) {
						if l.node.ShortTag() == "!!str" {
							o.Value = unmark(qs(l.node.Value))
						} else if l.node.Style == 0 && l.node.Value != "" {
							o.Value = unmark(sc(l.node.Value))
						}
					}
				}
				g.r.Shuffle(len(o.Inject), func(i, j int) { o.Inject[i], o.Inject[j] = o.Inject[j], o.Inject[i] })
				t.count("injected_to_existing_places")
			}
			o.InjList = g.p(30)
		}
		if g.p(6) {
			o.Inject = append(o.Inject, g.pick("a[0]", "$.b.*", "..c", "a[?(@.x)]"))
		}
		if g.p(12) {
			o.HasDQ, o.Groups = true, b.groups(docs)
		}
		return o
	}
	for k := 0; k < 4; k++ {
		b.spread(1+g.n(3), mk)
		if len(b.forms) > 0 {
			break
		}
	}
	if g.p(4) { // an injectPath which is an expression is rejected when it is needed
		b.in.Common = append(b.in.Common, &Ov{Query: []string{"$..zz_no"}, Action: "merge", Value: sc("1"), Missing: "inject", Inject: []string{g.pick("a[0]", "b.*", "$..c")}})
		b.forms = append(b.forms, "reject")
	}
	b.finish(t, judgeOpt{})
	t.count([]string{"default_by_flag", "default_by_flag", "default_by_env", "default_by_config", "default_ignore_by_env", "default_unset"}[def])
	if b.s.Instr != "" && strings.Contains(b.s.Instr, "injectPath") {
		t.count("with_injectPath")
	}
}

func (g *Gen) pickG(l ...*G) *G { return l[g.n(len(l))] }

func init() {
	register(&Prop{id: "C09", quick: 4500, thorough: 40000,
		rule:    "a case has overlays with a documentQuery whose conditions are made from what the documents contain at that moment (equal values in another presentation, changed values, other places, missing places; several groups and conditions); distinct by instructions and sources",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100},
		perCase: docQueryCase})
	register(&Prop{id: "C10", quick: 6000, thorough: 40000,
		rule:    "a case has overlays whose queries find nothing in some or all documents, with each onMissing action, injectPaths (several, unions, below scalars, lists and aliases), and the default action from flag, environment or configuration; distinct by instructions, sources and settings",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100, "with_injectPath": 100, "injected_to_existing_places": 200},
		perCase: onMissingCase})
}
