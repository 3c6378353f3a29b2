package main

import (
	"fmt"

	"gopkg.in/yaml.v3"
)

// shareDoc is a document with many places for the same value.
func (g *Gen) shareDoc(id string) *G {
	ps := newMap()
	for i := 0; i < 2+g.n(3); i++ {
		switch g.n(4) {
		case 0:
			ps.set(fmt.Sprintf("p%d", i), sc("old"))
		case 1:
			ps.set(fmt.Sprintf("p%d", i), newSeq(sc("1")))
		default:
			ps.set(fmt.Sprintf("p%d", i), newMap().set("own", sc(fmt.Sprint(i))).set("m", newMap().set("x", sc("1"))))
		}
	}
	l := newSeq()
	for i := 0; i < 1+g.n(3); i++ {
		l.items = append(l.items, newMap().set("name", sc(fmt.Sprintf("n%d", i))).set("v", newMap()))
	}
	m := newMap().set("id", qs(id)).set("places", ps).set("list", l)
	if g.p(40) {
		m.set("more", g.mapping(2))
	}
	return m
}

// sharedValue is a value with something to change inside.
func (g *Gen) sharedValue(marks bool) *G {
	v := newMap().set("a", newMap().set("b", newSeq(sc("1"), newMap().set("c", sc("x"))))).set("s", sc("text")).set("n", sc("1"))
	switch g.n(5) {
	case 0:
		v = newSeq(sc("one"), newMap().set("k", newSeq(sc("2"))), newSeq(sc("3")))
	case 1:
		v = newMap().set("own", sc("shared")).set("m", newMap().set("y", newMap().set("z", newSeq())))
	case 2:
		vg := g.ovGen() // with anchors it is open whether an alias follows a change of the anchored value
		v = unmark(vg.mapping(3))
	case 3:
		return sc("scalar")
	}
	if marks && g.p(50) {
		g.withMarkers(v, false, 60)
	}
	if g.p(30) {
		g.decorated(v, 40)
	}
	if g.p(15) { // anchors which nothing refers to
		var walk func(x *G)
		walk = func(x *G) {
			if x.anchor == "" && x.kind != '*' && g.p(30) {
				g.cid++
				x.anchor = fmt.Sprintf("sv%d", g.cid)
			}
			for _, c := range x.items {
				walk(c)
			}
		}
		for _, c := range v.items {
			walk(c)
		}
	}
	return v
}

func shareCase(t *T) {
	g := t.gen()
	g.wild = g.p(30)
	g.anchors = t.idx%6 == 0
	b := t.builder(g)
	nf := 1 + g.n(4)
	for i := 0; i < nf; i++ {
		j := 0
		b.file(fmt.Sprintf("src/f%d.yaml", i), 1+g.n(4), func() *G {
			j++
			if g.p(15) {
				return b.doc()
			}
			return g.shareDoc(fmt.Sprintf("f%d#%d", i, j))
		})
	}
	// an overlay which puts its value in many places
	wide := func(docs []*Node) *Ov {
		o := &Ov{Action: g.pick("merge", "replace", "replace")}
		o.Value = g.sharedValue(o.Action == "merge")
		switch g.n(9) {
		case 0:
			o.Query = []string{"$.places.*"}
		case 1:
			o.Query = []string{"places.p0", "places.p1", "places.p2"}
		case 2:
			o.Query = []string{"$.list[*].v"}
		case 3:
			o.Query = []string{"$.list[*]"}
		case 4:
			o.Query, o.Missing = []string{"made.here"}, "inject"
			if g.p(50) {
				o.Query, o.Inject = []string{"$.made[?(@.x=='y')]"}, []string{"made.one", "made.two", "third"}[:1+g.n(3)]
			}
		case 5:
			o.Query = []string{"$..own"}
		case 6:
			o.Query = []string{"$.places.p0", "$.list[0]", "places"}[:1+g.n(3)]
		case 7:
			return b.ov(docs, ovOpt{expr: 90, multi: 50, actions: []string{"merge", "replace"}, value: func(*Node) *G { return g.sharedValue(false) }})
		default:
			o.Query = []string{"$"}
			o.Action = "merge"
			o.Value = newMap().set("places", newMap().set("p0", g.sharedValue(false)).set("new", g.sharedValue(false))).set("fresh", g.sharedValue(false))
		}
		return o
	}
	narrow := func(docs []*Node) *Ov {
		return b.ov(docs, ovOpt{expr: 0, multi: 10, actions: []string{"merge", "merge", "replace", "delete", "combine"}, want: func(l loc) bool {
			return len(l.steps) > 1 || g.p(10)
		}})
	}
	changed, applied := 0, 0
	for k := 1 + g.n(3); k > 0; k-- {
		if b.addCommon(func() *Ov { return wide(b.inScope(all)) }) {
			applied++
		}
		for j := g.n(3); j > 0; j-- { // changes to some documents only
			idx := []int{g.n(3)}
			if b.addCommon(func() *Ov {
				o := narrow(b.inScope(func(f *bFile, i int) bool { return i == idx[0] }))
				if o != nil {
					o.HasIdx, o.DocIdx = true, idx
				}
				return o
			}) {
				changed++
			}
		}
	}
	for _, f := range b.files {
		f := f
		in := func(x *bFile, i int) bool { return x == f }
		for k := g.n(4); k > 0; k-- {
			if g.p(30) {
				if b.addFile(f, func() *Ov { return wide(b.inScope(in)) }) {
					applied++
				}
			} else if b.addFile(f, func() *Ov { return narrow(b.inScope(in)) }) {
				changed++
			}
		}
		for k := g.n(3); k > 0; k-- {
			idx := g.n(len(f.docs))
			if b.addDoc(f, idx, func() *Ov {
				return narrow(b.inScope(func(x *bFile, i int) bool { return x == f && i == idx }))
			}) {
				changed++
			}
		}
	}
	if changed == 0 || applied == 0 {
		t.skip("nothing was changed after a value was applied")
		return
	}
	t.addn("values_applied_widely", int64(applied))
	t.addn("later_changes", int64(changed))
	b.finish(t, judgeOpt{comments: true})
}

// listsCase: overlays listed for one file or directory must not reach another.
func listsCase(t *T) {
	g := t.gen()
	in := &Instr{}
	s := t.scenario(g, in)
	l := g.layout(6)
	next := 0
	g.traceSources(l, s, 2)
	ov := func() *Ov {
		next++
		return &Ov{Query: []string{"trace"}, Action: "merge", Value: newSeq(sc(fmt.Sprintf("o%d", next)))}
	}
	ovs := func(n int) (r []*Ov) {
		for i := 0; i < n; i++ {
			r = append(r, ov())
		}
		return
	}
	in.Common = ovs(g.n(10)) // lengths around the points where slices grow
	for _, d := range l.dirs {
		if g.p(70) {
			e := &FileEntry{Path: g.spell(d), Ovs: ovs(g.n(6))}
			for k := g.n(4); k > 0; k-- {
				e.Docs = append(e.Docs, DocEntry{Idx: g.n(2), Ovs: ovs(g.n(4))})
			}
			in.Files = append(in.Files, e)
		}
	}
	for k := g.n(2 * len(l.paths)); k >= 0; k-- {
		e := &FileEntry{Path: g.spell(l.paths[g.n(len(l.paths))]), Ovs: ovs(g.n(6))}
		for k := g.n(4); k > 0; k-- {
			e.Docs = append(e.Docs, DocEntry{Idx: g.n(2), Ovs: ovs(g.n(4))})
		}
		in.Files = append(in.Files, e)
	}
	g.r.Shuffle(len(in.Files), func(i, j int) { in.Files[i], in.Files[j] = in.Files[j], in.Files[i] })
	g.setInstr(s, in)
	if g.p(30) {
		s.Query, s.Value = []string{"trace"}, "[cli]"
	}
	t.sig(s.Instr, fmt.Sprint(l.paths))
	t.addn("overlays_in_shared_lists", int64(next))
	t.judge(s, judgeOpt{})
}

func init() {
	_ = yaml.ScalarNode
	register(&Prop{id: "C14", quick: 1600, thorough: 40000,
		rule:   "a case applies values to several matches, documents and files, and afterwards changes some of these places (by document index, documents entry or file) and applies more; the final content of all places is compared with the expected one; a quarter of the cases has overlay lists of all lengths shared by directories, files and duplicates; distinct by instructions and sources",
		assume: []string{modelTrust},
		min:    map[string]int64{"exit_0": 100, "values_applied_widely": 500, "later_changes": 500},
		perCase: func(t *T) {
			if t.idx%4 == 3 {
				listsCase(t)
				return
			}
			shareCase(t)
		}})
}
