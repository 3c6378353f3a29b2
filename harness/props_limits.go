package main

import (
	"fmt"
	"path"
	"strings"
)

// limitsCase: many files with few file descriptors.
func limitsCase(t *T) {
	g := t.gen()
	g.maxDepth, g.width, g.size = 2, 3, 0
	b := t.builder(g)
	limit := 24 + g.n(30)
	n := 3 + g.n(8)
	many := g.p(85)
	if many {
		n = limit + 30 + g.n(140)
	}
	// a few documents, which many files have
	var kinds [][]func() *G
	for k := 1 + g.n(3); k > 0; k-- {
		var docs []func() *G
		for j := 1 + g.n(2); j > 0; j-- {
			d := b.doc()
			docs = append(docs, func() *G { return d })
		}
		kinds = append(kinds, docs)
	}
	dirs := []string{"src", "src/a", "src/b", "src/a/b"}
	if g.p(30) {
		for k := 0; k < n; k++ {
			dirs = append(dirs, fmt.Sprintf("src/d%d/e", k))
		}
	}
	for k := 0; k < n; k++ {
		ds := kinds[g.n(len(kinds))]
		i := -1
		b.file(fmt.Sprintf("%s/f%d.%s", dirs[g.n(len(dirs))], k, g.pick("yaml", "yaml", "yml")), len(ds), func() *G {
			i++
			return ds[i]()
		})
	}
	for k := g.n(3); k > 0; k-- {
		b.addCommon(func() *Ov {
			return b.ov(b.files[g.n(len(b.files))].docs, ovOpt{expr: 25, multi: 10, actions: []string{"merge", "replace", "delete", "combine"}})
		})
	}
	for k := g.n(10); k > 0; k-- {
		f := b.files[g.n(len(b.files))]
		b.addFile(f, func() *Ov {
			return b.ov(f.docs, ovOpt{expr: 25, multi: 10, actions: []string{"merge", "replace", "delete"}})
		})
	}
	s := b.s
	if g.p(15) { // files without documents
		for k := limit + 5 + g.n(40); k > 0; k-- {
			p := fmt.Sprintf("%s/e%d.yaml", dirs[g.n(len(dirs))], k)
			s.Sources[p] = g.pick("", "# nothing\n", "\n\n")
			b.in.Files = append(b.in.Files, &FileEntry{Path: p})
		}
		t.count("files_without_documents")
	}
	switch g.n(7) {
	case 0: // all of them by one directory
		b.in.Files = []*FileEntry{{Path: "src"}}
		t.count("given_by_a_directory")
	case 1:
		b.in.Files = nil
		s.Path = "src"
		t.count("given_by_a_flag")
	case 2: // listed repeatedly
		for k := g.n(60); k > 0; k-- {
			b.in.Files = append(b.in.Files, &FileEntry{Path: b.files[g.n(len(b.files))].path})
		}
		t.count("listed_repeatedly")
	case 3:
		for _, f := range b.in.Files {
			if g.p(60) {
				f.Out = fmt.Sprintf("%s%s", g.pick("x/", "y/z/", "@/abs/"), strings.ReplaceAll(f.Path, "/", "-"))
				if path.Ext(f.Out) != ".yaml" {
					f.Out = ""
				}
			}
		}
	}
	s.Stdout = g.p(30)
	values := 0
	if !strings.Contains(g.instrText(b.in), "{{") && (!many || g.p(40)) {
		values = limit + 10 + g.n(60)
		for k := 0; k < values; k++ {
			v := fmt.Sprintf("values/v%d.yaml", g.n(1+k))
			s.Sources[v] = g.pick("a: 1\n", "{}\n", "b: {c: [1, 2]}\n", "a: x\nb: {d: 1}\n")
			s.Extra = append(s.Extra, "-f", v)
		}
	}
	s = b.done()
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err == nil && collision(want, nil) {
		t.skip("the instructions name the same output for several files")
		return
	}
	t.sig(s.Instr, s.Sources, s.Path, limit)
	t.mutate = func(c *Case) {
		// files which are no longer referred to are not closed by chance
		c.Env["GOGC"] = "off"
		c.Wrap = []string{"/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d && exec "$@"`, limit), "sh"}
	}
	r := t.judge(s, judgeOpt{})
	t.mutate = nil
	if r == nil || r.Exit != 0 {
		return
	}
	t.addn("sources_read", int64(n))
	t.addn("values_files_read", int64(values))
	t.addn("descriptors_allowed", int64(limit))
	if !s.Stdout {
		k := 0
		for _, w := range want {
			if len(w.Docs) > 0 {
				k++
			}
		}
		t.addn("files_written", int64(k))
	}
}

func init() {
	register(&Prop{id: "C29", quick: 450, thorough: 4000,
		rule:    "a case has between two and several times as many sources (listed once or repeatedly, or given by a directory) or values files as the run may have open at a time, and nothing is closed by garbage collection; outputs are compared with the model; distinct by instructions, sources and limit",
		assume:  []string{modelTrust, "a run may have 24 descriptors open, whatever its inputs are"},
		min:     map[string]int64{"exit_0": 100, "sources_read": 10000, "values_files_read": 2000, "files_written": 5000},
		perCase: limitsCase})
}
