package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// idSources gives each file documents with ids of their own.
func (g *Gen) idSources(l *lay, s *Scenario, maxDocs int) {
	for _, p := range l.paths {
		n := 1 + g.n(maxDocs)
		var docs []*G
		for j := 0; j < n; j++ {
			d := newMap().set("id", qs(fmt.Sprintf("%s#%d", p, j)))
			if g.p(40) {
				d.set("list", newSeq(sc("1"), sc("two")))
			}
			docs = append(docs, d)
		}
		l.n[p] = n
		s.Sources[p] = g.stream(docs)
	}
}

var outPaths = []string{"renamed.yaml", "new/renamed.yaml", "newdir", "newdir/", "a/b/c", "./x.yaml", "a/../y.yaml", "deep/er/z.yml", "new.d/f.yaml", "v1.2", "with space/f.yaml", "@/abs/one.yaml", "@/abs/dir", "@/abs/dir/", "/@/abs/two.yaml", "/@/abs/./dir2", "@/abs/../abs/three.yaml", "q.json", "noext/./sub", "../beside/x.yaml", "../beside", "a/../../up.yaml", "x/../../two/up.yml", ".hidden/x"}

// collision tells whether the outputs which the instructions ask for exclude each other, which is left open.
func collision(outs []MOut, explicit map[string]bool) bool {
	seen := map[string]bool{}
	for _, o := range outs {
		if seen[o.Name] {
			return true
		}
		seen[o.Name] = true
	}
	for _, o := range outs {
		for d := path.Dir(o.Name); d != "/"; d = path.Dir(d) {
			if seen[d] {
				return true
			}
		}
	}
	return false
}

// listing compares the list of written files on standard output with the files which were written.
func (t *T) listing(s *Scenario, c *Case, r *Result) {
	if r == nil || r.Exit != 0 || s.Stdout {
		return
	}
	got := map[string]int{}
	for _, l := range strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n") {
		if l == "" {
			continue
		}
		p := l
		if !path.IsAbs(p) {
			p = path.Join(t.sb.Dir, s.Cwd, p)
		}
		got[rel(path.Clean(p), t.sb.Dir)]++
	}
	created, changed, removed := r.Changed()
	for _, f := range append(created, changed...) {
		if strings.HasSuffix(f, "/") {
			continue
		}
		if got[f] != 1 {
			t.fail(c, r, fmt.Sprintf("%s was written but is listed %d times on standard output", f, got[f]))
			return
		}
		t.count("files_listed")
		delete(got, f)
	}
	if len(removed) > 0 {
		t.fail(c, r, fmt.Sprintf("removed: %v", removed))
	}
	for f, n := range got {
		if _, ok := r.After[f]; !ok || n != 1 {
			t.fail(c, r, fmt.Sprintf("%s is listed %d times on standard output, but was not written", f, n))
			return
		}
	}
}

func outputCase(t *T) {
	g := t.gen()
	g.wild = false
	in := &Instr{}
	s := t.scenario(g, in)
	s.IPath = g.pick("i.yaml", "i.yaml", "inst/i.yaml", "src/inst.yml", "src/a/b/i.inst")
	s.Cwd = g.pick("", "", "", "work", "src/a", "work/deep")
	l := g.layout(6)
	switch g.n(8) {
	case 0: // same names everywhere
		l = &lay{n: map[string]int{}}
		for _, d := range []string{"src", "src/a", "src/b", "src/a/b", "src/b/a", "lib/a"}[g.n(3):] {
			if g.p(70) {
				l.paths = append(l.paths, d+"/f.yaml")
			}
		}
		if len(l.paths) == 0 {
			l.paths = []string{"src/f.yaml"}
		}
		for _, d := range []string{"src", "src/a", "src/b", "lib"} {
			for _, p := range l.paths {
				if strings.HasPrefix(p, d+"/") {
					l.dirs = append(l.dirs, d)
					break
				}
			}
		}
	case 1: // directories whose names share a prefix
		l = &lay{n: map[string]int{}, paths: g.prefixed(), dirs: []string{"src"}}
		l.dirs = append(l.dirs, path.Dir(l.paths[0]))
	}
	if strings.HasPrefix(s.IPath, "src/") { // an instruction file in a directory of sources must not be taken for a source
		for _, d := range []string{"src", "src/a", "src/a/b"} {
			_ = d
		}
	}
	g.idSources(l, s, 2)
	dirsOk := !strings.HasPrefix(s.IPath, "src/") || !strings.HasSuffix(s.IPath, "ml")
	order := g.r.Perm(len(l.paths))
	for _, i := range order {
		in.Files = append(in.Files, &FileEntry{Path: l.paths[i]})
	}
	if g.p(50) && dirsOk {
		for k := 1 + g.n(2); k > 0; k-- {
			e := &FileEntry{Path: l.dirs[g.n(len(l.dirs))]}
			if g.p(20) {
				e.Path += "/"
			}
			at := g.n(len(in.Files) + 1)
			in.Files = append(in.Files[:at], append([]*FileEntry{e}, in.Files[at:]...)...)
		}
	} else if g.p(30) { // the same file again
		in.Files = append(in.Files, &FileEntry{Path: l.paths[g.n(len(l.paths))]})
	}
	outs := 0
	for _, e := range in.Files {
		isDir := false
		for _, d := range l.dirs {
			if strings.TrimSuffix(e.Path, "/") == d {
				isDir = true
			}
		}
		if g.p(40) {
			e.Out = outPaths[g.n(len(outPaths))]
			for isDir && path.Ext(e.Out) != "" {
				e.Out = outPaths[g.n(len(outPaths))]
			}
			outs++
		}
		e.Path = g.spell(e.Path)
		if g.p(25) {
			e.Ovs = []*Ov{{Query: []string{"id"}, Action: "combine", Value: qs("+")}}
		}
	}
	g.setInstr(s, in)
	if g.p(20) {
		s.Path = "@/" + l.paths[g.n(len(l.paths))]
	} else if g.p(15) {
		s.Path = "-"
		s.Stdin = "from: stdin\n"
	}
	if g.p(12) { // no instructions at all
		s.Instr = ""
		s.Path = g.spell(l.paths[g.n(len(l.paths))])
		if !strings.HasPrefix(s.Path, "@/") && s.Cwd != "" {
			s.Path = strings.Repeat("../", strings.Count(s.Cwd, "/")+1) + s.Path
		}
		if g.p(40) {
			s.Path = "@/" + l.dirs[g.n(len(l.dirs))]
		}
		if !dirsOk {
			s.IPath = "i.yaml"
		}
		t.count("path_flag_only")
	}
	switch g.n(9) {
	case 0:
		s.OutDir = "@/absout/x"
	case 1:
		s.OutDir = "./o/../out2/"
	case 2:
		s.OutDir = "new/deep/er"
	case 3:
		s.OutDir, s.NoOut = "output", true
		t.count("default_output_directory")
	case 4:
		s.OutDir = "ou t/é"
	case 5:
		s.OutDir = "out"
		s.Dirs = append(s.Dirs, path.Join(s.Cwd, "out"))
	}
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err == nil && collision(want, nil) {
		t.skip("the instructions name the same output for several files")
		return
	}
	c := s.Case()
	for _, w := range want {
		if _, ok := c.Files[rel(w.Name, t.sb.Dir)]; ok {
			t.skip("the instructions name a source as output")
			return
		}
	}
	t.sig(s.Instr, s.Path, s.OutDir, s.Cwd, fmt.Sprint(l.paths))
	// permissions: a umask, and outputs which exist
	umask := uint32(0o22)
	if g.p(30) {
		umask = uint32([]int{0o22, 0o27, 0o77, 0o26}[g.n(4)])
	}
	modes := map[string]uint32{}
	// a file in a listed directory would be a source
	listed := func(n string) bool {
		for _, d := range l.dirs {
			if d == "." || d == "" || strings.HasPrefix(n, d+"/") {
				return true
			}
		}
		return false
	}
	if g.p(25) {
		for _, w := range want {
			if n := rel(w.Name, t.sb.Dir); len(w.Docs) > 0 && !strings.HasPrefix(n, "..") && !listed(n) && g.p(50) {
				modes[n] = uint32([]int{0o600, 0o640, 0o664, 0o755, 0o644}[g.n(5)])
			}
		}
	}
	t.mutate = func(c *Case) {
		c.Wrap = []string{"/bin/sh", "-c", fmt.Sprintf(`umask %03o && exec "$@"`, umask), "sh"}
		for n, m := range modes {
			c.Files[n] = "former: content\n"
			if c.Mode == nil {
				c.Mode = map[string]uint32{}
			}
			c.Mode[n] = m
		}
	}
	r := t.judge(s, judgeOpt{})
	t.mutate = nil
	t.listing(s, c, r)
	if r != nil && r.Exit == 0 && r.Crash() == "" {
		t.permissions(c, r, modes, umask)
	}
	t.addn("output_paths_given", int64(outs))
	if r != nil && r.Exit == 0 {
		t.addn("files_expected", int64(len(want)))
	}
}

// permissions of what was written: the usual ones for new files and directories, and those which existing files had.
func (t *T) permissions(c *Case, r *Result, existing map[string]uint32, umask uint32) {
	for n, m := range r.Modes {
		want, what := uint32(0o644)&^umask, "new file"
		if _, dir := r.After[n+"/"]; dir {
			if _, old := r.Before[n+"/"]; old {
				continue
			}
			want, what = 0o755&^umask, "new directory"
		} else if had, old := existing[n]; old {
			want, what = had, "existing file"
			t.count("existing_outputs")
		} else if _, old := r.Before[n]; old || strings.HasPrefix(r.After[n], "<link>") {
			continue
		} else {
			t.count("new_outputs")
		}
		if m != want {
			t.fail(c, r, fmt.Sprintf("%s %s has the permissions %03o, expected %03o", what, n, m, want))
			return
		}
	}
}

var otherFiles = []string{"notes.txt", "data.json", "f.yaml.bak", "f.yaml~", "README", "yaml", "f.YAML", "f.yamlx", "x.ym", ".yamllint", "f.yaml.gpg", "Makefile", "chart.tgz", "f.yml.orig", "yml"}

func treeCase(t *T) {
	g := t.gen()
	g.wild = false
	in := &Instr{}
	s := t.scenario(g, in)
	s.IPath = g.pick("i.yaml", "inst/i.yaml", "deep/in/i.yaml")
	s.Cwd = g.pick("", "", "work")
	// a tree of its own
	l := &lay{n: map[string]int{}}
	dirNames := []string{"a", "b", "a.yaml", "sub dir", "z", "A", "a-b", ".hid", "ab", "x.yml", "0", "output", "node_modules", "vendor", ".git", "templates", "target", "testdata"}
	var mk func(d string, depth int)
	files := 0
	mk = func(d string, depth int) {
		l.dirs = append(l.dirs, d)
		for k := g.n(4); k > 0; k-- {
			p := path.Join(d, layNames[g.n(len(layNames))])
			if g.p(10) {
				p = path.Join(d, g.pick(".yaml", "-.yml", "a.yaml.yml", "ab.yaml", "b.yaml", "zz.yml"))
			}
			if _, ok := l.n[p]; !ok && files < 14 {
				clash := false
				for _, x := range l.dirs {
					clash = clash || x == p
				}
				if clash {
					continue
				}
				l.n[p] = 1
				l.paths = append(l.paths, p)
				files++
			}
		}
		for k := g.n(3); k > 0; k-- {
			p := path.Join(d, otherFiles[g.n(len(otherFiles))])
			s.Sources[p] = "{{ this is: [not YAML\n\t- at all"
		}
		if depth > 0 {
			for k := g.n(4); k > 0; k-- {
				x := path.Join(d, dirNames[g.n(len(dirNames))])
				clash := false
				for p := range s.Sources {
					clash = clash || p == x || strings.HasPrefix(p, x+"/")
				}
				for _, p := range l.paths {
					clash = clash || p == x || strings.HasPrefix(p, x+"/")
				}
				for _, p := range l.dirs {
					clash = clash || p == x
				}
				if !clash {
					mk(x, depth-1)
				}
			}
		}
	}
	mk("tree", 3)
	if len(l.paths) == 0 {
		l.paths = []string{"tree/only.yaml"}
	}
	g.traceSources(l, s, 2)
	var dirs []string // the ones with files somewhere below
	for _, d := range l.dirs {
		for f := range s.Sources {
			if strings.HasPrefix(f, d+"/") {
				dirs = append(dirs, d)
				break
			}
		}
	}
	sort.Strings(dirs)
	files0 := append([]string{}, l.paths...)
	if g.p(40) {
		s.Links = map[string]string{}
		// a directory by another name, which is what an entry or --path says
		if len(dirs) > 0 && g.p(60) {
			s.Links["lnk"] = dirs[g.n(len(dirs))]
			dirs = append(dirs, "lnk", "lnk")
			if g.p(30) {
				s.Links["link.d/ln"] = g.pick("lnk", s.Links["lnk"])
				dirs = append(dirs, "link.d/ln")
			}
			for f := range s.through() {
				if d := path.Dir(f); d != "lnk" && d != "link.d/ln" {
					dirs = append(dirs, d)
				}
			}
		}
		// a file by another name, within the tree
		for k := g.n(3); k > 0; k-- {
			p := path.Join(l.dirs[g.n(len(l.dirs))], g.pick("current.yaml", "ln.yml", "00.yaml", "link", "ln.txt"))
			if _, ok := s.Sources[p]; !ok && s.Links[p] == "" {
				s.Links[p] = files0[g.n(len(files0))]
				if e := path.Ext(p); e == ".yaml" || e == ".yml" || g.p(50) {
					l.paths = append(l.paths, p)
				}
			}
		}
		sort.Strings(dirs)
		t.addn("links", int64(len(s.Links)))
	}
	next := 0
	add := func(p string) {
		e := &FileEntry{Path: p, Ovs: g.traceOvs(2, &next, true)}
		if g.p(30) {
			e.Docs = []DocEntry{{Idx: g.n(2), Ovs: g.traceOvs(2, &next, false)}}
		}
		if g.p(15) && path.Ext(p) == "" {
			e.Out = g.pick("out1", "o/u/t", "out1/")
		}
		e.Path = g.spell(p)
		if g.p(15) && path.Ext(e.Path) == "" {
			e.Path += "/"
		}
		in.Files = append(in.Files, e)
	}
	for k := 1 + g.n(4); k > 0; k-- {
		switch {
		case g.p(65):
			add(dirs[g.n(len(dirs))])
		default:
			add(l.paths[g.n(len(l.paths))])
		}
	}
	in.Common = g.traceOvs(2, &next, false)
	g.setInstr(s, in)
	if g.p(25) {
		s.Path = "@/" + dirs[g.n(len(dirs))]
		if g.p(30) {
			s.Path = "@/" + l.paths[g.n(len(l.paths))]
		}
		if g.p(30) { // only what is given on the command line
			s.Instr = ""
			t.count("path_flag_only")
		}
	}
	if g.p(20) {
		s.Query, s.Value = []string{"last"}, "cli"
	}
	s.Stdout = g.p(50)
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err == nil && !s.Stdout && collision(want, nil) {
		t.skip("the instructions name the same output for several files")
		return
	}
	t.sig(s.Instr, s.Path, fmt.Sprint(l.paths))
	c := s.Case()
	r := t.judge(s, judgeOpt{})
	t.listing(s, c, r)
	t.addn("files_in_trees", int64(len(l.paths)))
	t.addn("files_expected", int64(len(want)))
	if r == nil || r.Exit != 0 || !s.Stdout || t.idx%3 != 0 {
		return
	}
	// the same files listed one by one
	ids := func(text string) (l []string) {
		d, _ := parseDocs(text)
		for _, x := range d {
			if len(x.Content) > 0 {
				l = append(l, strOf(child(x.Content[0], "doc")))
			}
		}
		return
	}
	var exp []string
	for _, w := range want {
		for _, d := range w.Docs {
			if len(d.Content) > 0 {
				exp = append(exp, strOf(child(d.Content[0], "doc")))
			}
		}
	}
	if got := ids(r.Stdout); fmt.Sprint(got) != fmt.Sprint(exp) {
		t.fail(c, r, fmt.Sprintf("documents %v, expected %v", got, exp))
	}
	t.count("orders_compared")
}

func init() {
	register(&Prop{id: "C16", quick: 6000, thorough: 40000,
		rule:    "a case is a set of source paths (depths, equal names, directories sharing a prefix, unusual characters) listed in many spellings with and without outputPath, by instructions and --path, with relative, absolute, new and existing output directories; the files which exist afterwards, their content and the listing on standard output are compared with the expected ones; distinct by instructions, layout and flags",
		assume:  []string{modelTrust, "cases whose instructions name the same output for several files are not judged"},
		min:     map[string]int64{"exit_0": 100, "output_paths_given": 300, "files_listed": 500, "default_output_directory": 20, "path_flag_only": 20, "existing_outputs": 200, "new_outputs": 2000},
		perCase: outputCase})
	register(&Prop{id: "C17", quick: 4500, thorough: 40000,
		rule:    "a case is a directory tree with YAML files, files of other kinds which are not YAML at all, and directories with names like YAML files, listed by directories and files in many spellings, with overlays which leave their ids; distinct by instructions, flags and tree",
		assume:  []string{modelTrust, "symbolic links within directories are not generated"},
		min:     map[string]int64{"exit_0": 100, "files_in_trees": 1000, "orders_compared": 30, "path_flag_only": 10},
		perCase: treeCase})
}

// prefixed makes paths whose directories have names with a common beginning.
func (g *Gen) prefixed() []string {
	if g.p(40) {
		return []string{"src/app/f.yaml", "src/app-x/f.yaml", "src/appx/f.yaml"}[:2+g.n(2)]
	}
	c := g.pick("app", "app-", "app_", "app.", "v1.", "a b ", "é", "-", "1")
	r := []string{"src/app/f.yaml"}
	for _, e := range []string{"1", "2", "x"}[g.n(2):] {
		r = append(r, "src/"+c+e+"/f.yaml")
	}
	if g.p(60) {
		r = r[1:]
	}
	return r
}
