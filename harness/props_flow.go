package main

import (
	"fmt"
	"path"
	"strings"
)

// lay is a set of source files and the ways they are listed in instructions.
type lay struct {
	paths []string       // relative to the case directory
	n     map[string]int // number of documents
	dirs  []string
}

var layDirs = []string{"src", "src/a", "src/a/b", "src/aa", "src/b", "lib", "src/a.d", "src/x y", "src/.hidden", "src/a/b/c/d", "src/output", "lib/node_modules/x", "src/1/2/3/4/5/6/7/8", "f.yaml", "lib/k.yaml", "z.yml/a"}
var layNames = []string{"f.yaml", "g.yaml", "f.yml", "a.yaml", "z.yml", "f-1.yaml", "f.x.yaml", ".dot.yaml", "ä.yaml", "F.yaml", "two words.yaml", "fa.yaml"}

// layout chooses up to max different source files.
func (g *Gen) layout(max int) *lay {
	l := &lay{n: map[string]int{}}
	nd := 1 + g.n(3)
	if g.size == 'm' && max > 2 {
		nd, max = 2+g.n(6), 12+g.n(40)
	}
	var dirs []string
	for i := 0; i < nd; i++ {
		dirs = append(dirs, layDirs[g.n(len(layDirs))])
	}
	k := 1 + g.n(max)
	if max > 11 {
		k = max
	}
	seen := map[string]bool{}
	for i := 0; i < k*3 && len(l.paths) < k; i++ {
		d := dirs[g.n(len(dirs))]
		p := path.Join(d, layNames[g.n(len(layNames))])
		if !seen[p] {
			seen[p] = true
			l.paths = append(l.paths, p)
		}
		for ; d != "."; d = path.Dir(d) {
			if !seen[d+"/"] {
				seen[d+"/"] = true
				l.dirs = append(l.dirs, d)
			}
		}
	}
	return l
}

// spell writes a path (relative to the case directory) in one of its many ways.
func (g *Gen) spell(p string) string {
	switch g.n(9) {
	case 0:
		return "@/" + p
	case 1:
		return "./" + p
	case 2:
		return strings.Replace(p, "/", "//", 1)
	case 3:
		d := strings.SplitN(p, "/", 2)
		if len(d) == 2 {
			return d[0] + "/../" + p
		}
	case 4:
		d := strings.SplitN(p, "/", 2)
		return "@/" + d[0] + "/../" + p
	case 5:
		return "@/./" + p
	}
	return p
}

// traceDoc is a document which records what is applied to it.
func (g *Gen) traceDoc(tag string) *G {
	m := newMap().set("doc", qs(tag)).set("trace", newSeq(sc("start"))).set("text", qs("")).set("last", sc("none"))
	if g.p(30) {
		m.set("kind", sc(g.pick("A", "B")))
	}
	if g.p(20) {
		m.set("deep", newMap().set("trace", newSeq()))
	}
	return m
}

// traceOv is an overlay which leaves its id in a document, perhaps depending on what was there before.
func (g *Gen) traceOv(next *int) *Ov {
	*next++
	id := fmt.Sprintf("o%d", *next)
	prev := fmt.Sprintf("o%d", 1+g.n(*next))
	o := &Ov{Action: "merge"}
	if g.p(30) {
		o.Name = "name " + id
	}
	switch g.n(18) {
	case 14: // lists of queries which several overlays have in common
		o.Query, o.Value = []string{"$.trace[*]", "last"}, qs("%v>"+id)
		if g.p(30) {
			o.Query, o.Action, o.Value = o.Query[:1], "combine", qs("+"+id)
		}
	case 15:
		o.Query, o.Value = []string{"deep.trace", "trace", "made"}, newSeq(sc(id))
		if g.p(30) {
			o.Query = append(o.Query, g.pick("trace", "$..trace"))
		}
	case 16:
		o.Query, o.Action, o.Value = []string{"deep", "made"}, "replace", newMap().set("trace", newSeq(sc(id)))
		o.Missing = g.pick("inject", "", "ignore")
	case 17:
		o.Query, o.Value = []string{"trace"}, newSeq(sc(id))
		o.HasDQ, o.Groups = true, [][]Cond{{{Query: []string{"made", "$.deep.trace[*]"}}}}
	case 0:
		o.Query, o.Action, o.Value = []string{"text"}, "combine", qs(id+",")
	case 1:
		o.Query, o.Action, o.Value = []string{"last"}, "replace", sc(id)
	case 2:
		o.Query, o.Value = []string{"trace"}, newSeq(sc(id))
	case 3:
		o.Query, o.Value = []string{"last"}, qs("%v>"+id)
	case 4:
		o.Query, o.Action, o.Value = []string{"$.trace[?(@=='" + prev + "')]"}, "replace", sc(prev+"-by-"+id)
	case 5:
		o.Query, o.Value = []string{"trace"}, newSeq(sc(id))
		o.HasDQ, o.Groups = true, [][]Cond{{{Query: []string{"$.trace[?(@=='" + prev + "')]"}}}}
	case 6:
		o.Query, o.Value = []string{"made"}, newSeq(sc(id))
		o.Missing = "inject"
	case 7:
		o.Query, o.Action = []string{"$.trace[0]"}, "delete"
		if g.p(60) {
			o.Query = []string{"$.trace[?(@=='" + prev + "')]"}
		}
	case 8:
		o.Query, o.Value = []string{"trace"}, newSeq(sc(id))
		o.HasDQ, o.Groups = true, [][]Cond{{{Query: []string{"last"}, Value: sc(prev)}}, {{Query: []string{"kind"}, Value: sc("A")}}}
	case 9:
		o.Query, o.Value = []string{"$..trace"}, newSeq(sc(id))
	case 10:
		o.Query, o.Action = []string{g.pick("made", "$.trace", "deep", "last", "$")}, "delete"
		if !g.p(35) {
			o.Query, o.Action, o.Value = []string{"trace"}, "merge", newSeq(sc(id))
		}
	default:
		o.Query, o.Value = []string{"$"}, newMap().set("trace", newSeq(sc(id)))
	}
	return o
}

func (g *Gen) traceOvs(max int, next *int, idx bool) []*Ov {
	var l []*Ov
	for i := g.n(max + 1); i > 0; i-- {
		o := g.traceOv(next)
		if idx && g.p(20) {
			o.HasIdx = true
			for k := g.n(4); k > 0; k-- {
				o.DocIdx = append(o.DocIdx, g.n(6))
			}
		}
		l = append(l, o)
	}
	return l
}

// traceSources writes the source files of a layout.
func (g *Gen) traceSources(l *lay, s *Scenario, maxDocs int) {
	for _, p := range l.paths {
		n := 1 + g.n(maxDocs)
		var docs []*G
		for j := 0; j < n; j++ {
			docs = append(docs, g.traceDoc(fmt.Sprintf("%s#%d", p, j)))
		}
		l.n[p] = n
		s.Sources[p] = g.stream(docs)
	}
}

// traceEntries lists the files of a layout, some of them several times or by their directory.
func (g *Gen) traceEntries(l *lay, next *int, maxDocs int) []*FileEntry {
	var es []*FileEntry
	order := g.r.Perm(len(l.paths))
	for _, i := range order {
		es = append(es, &FileEntry{Path: l.paths[i]})
	}
	for k := g.n(4); k > 0; k-- {
		e := &FileEntry{Path: l.paths[g.n(len(l.paths))]}
		if g.p(50) && len(l.dirs) > 0 {
			e.Path = l.dirs[g.n(len(l.dirs))]
			if g.p(25) {
				e.Path += "/"
			}
		}
		at := g.n(len(es) + 1)
		es = append(es[:at], append([]*FileEntry{e}, es[at:]...)...)
	}
	for i, e := range es {
		e.Path = g.spell(e.Path)
		if g.p(30) {
			e.Name = fmt.Sprintf("entry %d", i)
		}
		e.Ovs = g.traceOvs(3, next, true)
		k := g.n(3)
		if g.size == 'm' && g.p(30) {
			k = 10 + g.n(30)
		}
		for ; k > 0; k-- {
			e.Docs = append(e.Docs, DocEntry{Idx: g.n(maxDocs + 1), Ovs: g.traceOvs(3, next, false)})
		}
	}
	return es
}

func (t *T) scenario(g *Gen, in *Instr) *Scenario {
	s := &Scenario{Sources: map[string]string{}, IPath: "i.yaml"}
	return s
}

// setInstr writes the instruction file, whose paths are relative to the case directory so far.
func (g *Gen) setInstr(s *Scenario, in *Instr) {
	if d := path.Dir(s.IPath); d != "." {
		up := strings.Repeat("../", strings.Count(d, "/")+1)
		for _, f := range in.Files {
			if f.Path != "-" && !strings.HasPrefix(f.Path, "@/") {
				f.Path = up + f.Path
			}
		}
	}
	s.Instr = g.instrText(in)
}

func orderCase(t *T) {
	if t.idx%6 == 5 {
		corpusCase(t, 4, judgeOpt{})
		return
	}
	g := t.gen()
	g.wild = false
	in := &Instr{}
	s := t.scenario(g, in)
	if g.p(25) {
		s.IPath = g.pick("inst/i.yaml", "src/i.inst", "inst/deep/x.yaml")
	}
	l := g.layout(5)
	if g.p(30) {
		l = g.layout(1)
	}
	md := 1 + g.n(4)
	if g.size == 'm' && g.p(40) {
		md = 5 + g.n(20)
	}
	g.traceSources(l, s, md)
	next := 0
	in.Common = g.traceOvs(5, &next, true)
	in.Files = g.traceEntries(l, &next, md)
	g.setInstr(s, in)
	if g.p(35) { // a command-line overlay
		next++
		id := fmt.Sprintf("cli%d", next)
		switch g.n(4) {
		case 0:
			s.Query, s.Value, s.Action = []string{"last"}, id, "replace"
		case 1:
			s.Query, s.Value, s.Action = []string{"text"}, `"`+id+`,"`, "combine"
		case 2:
			s.Query, s.Value = []string{"last"}, `"%v>`+id+`"`
		default:
			s.Query, s.Value = []string{"trace"}, "["+id+"]"
		}
		t.count("with_command_line_overlay")
	}
	if g.p(20) { // a file given on the command line
		s.Path = "@/" + l.paths[g.n(len(l.paths))]
		if g.p(40) {
			s.Path = "@/" + l.dirs[g.n(len(l.dirs))]
		}
		t.count("with_path_flag")
	}
	s.Stdout = g.p(50)
	t.sig(s.Instr, s.Query, s.Path, len(s.Sources))
	t.addn("overlays_written", int64(next))
	t.judge(s, judgeOpt{})
}

// scopeCase: every overlay leaves its own key in each document it reaches.
func scopeCase(t *T) {
	g := t.gen()
	in := &Instr{}
	s := t.scenario(g, in)
	l := g.layout(5)
	max := 1 + g.n(6)
	if g.size == 'm' && g.p(60) {
		max = 7 + g.n(40)
	}
	next := 0
	mkey := func() string { next++; return fmt.Sprintf("mark%d", next) }
	ov := func(idx bool) *Ov {
		k := mkey()
		o := &Ov{Query: []string{"$"}, Action: g.pick("merge", ""), Value: newMap().set(k, sc(fmt.Sprint(next)))}
		switch g.n(8) {
		case 0:
			o.Query, o.Action, o.Missing, o.Value = []string{k}, "replace", "inject", sc("x")
		case 1:
			o.Query, o.Value = []string{"seen", "base"}, newSeq(sc(k))
		case 2:
			o.Query, o.Action, o.Value = []string{"base", "name"}, "combine", qs("+"+k)
		case 3:
			if g.p(50) {
				o.Query, o.Action, o.Value = []string{g.pick("$", "base", "$.name", "$.*")}, "delete", nil
			}
		}
		if idx && g.p(55) {
			o.HasIdx = true
			for k := g.n(5); k > 0; k-- {
				o.DocIdx = append(o.DocIdx, g.n(max+2)-1*g.n(2))
			}
		}
		return o
	}
	for _, p := range l.paths {
		n := g.n(max + 1)
		var docs []*G
		for j := 0; j < n; j++ {
			d := newMap().set("name", qs(fmt.Sprintf("%s#%d", p, j)))
			if g.p(50) {
				d.set("base", sc("b"))
			}
			if g.p(50) {
				d.set("seen", newSeq())
			}
			switch g.n(14) {
			case 0:
				d = newSeq(sc("1"))
			case 1:
				d = sc("~")
			case 2:
				d = newMap()
			}
			docs = append(docs, d)
		}
		text := g.stream(docs)
		if _, err := parseDocs(text); err != nil {
			text = "a: 1\n"
		}
		if g.p(25) && len(docs) > 0 {
			var d []*Node
			text, d = g.withEmptyDocs(text, nil)
			_ = d
		}
		if g.p(8) {
			text = strings.Replace(text, "---\n", "---\n# a comment\n---\n", 1)
		}
		s.Sources[p] = text
	}
	for k := g.n(4); k > 0; k-- {
		in.Common = append(in.Common, ov(true))
	}
	for i, p := range l.paths {
		e := &FileEntry{Path: g.spell(p)}
		if i > 0 && g.p(15) {
			e.Path = g.spell(path.Dir(p))
		}
		for k := g.n(4); k > 0; k-- {
			e.Ovs = append(e.Ovs, ov(true))
		}
		for k := g.n(4); k > 0; k-- {
			d := DocEntry{Idx: g.n(max + 2)}
			for j := g.n(3); j >= 0; j-- {
				d.Ovs = append(d.Ovs, ov(false))
			}
			e.Docs = append(e.Docs, d)
		}
		in.Files = append(in.Files, e)
	}
	g.setInstr(s, in)
	s.Stdout = g.p(30)
	if g.p(20) {
		s.Query, s.Value = []string{"$"}, "{fromcli: true}"
	}
	t.sig(s.Instr, s.Sources)
	t.addn("marks", int64(next))
	t.judge(s, judgeOpt{})
}

func init() {
	register(&Prop{id: "C07", quick: 4500, thorough: 40000,
		rule:    "a case is a generated set of instructions (common, file, documents and command-line overlays, several listings and directories for the same files) whose overlays leave their unique id in a trace of the document, or depend on the ids left before; the traces in the output are compared with the documented order; distinct by instructions and layout",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100, "with_command_line_overlay": 50},
		perCase: orderCase})
	register(&Prop{id: "C08", quick: 4500, thorough: 40000,
		rule:    "a case is a set of files with zero to many documents (empty ones included) and overlays at all levels with index lists in and out of range, each of which leaves its own mark; distinct by instructions and sources",
		assume:  []string{modelTrust},
		min:     map[string]int64{"exit_0": 100},
		perCase: scopeCase})
}
