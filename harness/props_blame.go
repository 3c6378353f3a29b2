package main

import (
	"fmt"
	"path"
	"regexp"
	"strings"
)

// blame is a run with one thing wrong, and what its message has to tell.
type blame struct {
	what  string
	names []string // words which have to be in the message
	doc   int      // index of the document, or -1
	place []string // "line 3 column 4", one of these has to be in it
}

var documentWord = regexp.MustCompile(`(?i)\bdocument\s+#?(\d+)`)
var comma = regexp.MustCompile(`(line \d+),? (column \d+)`)

// position of the text in the file, as "line L column C".
func position(text, mark string) string {
	i := strings.Index(text, mark)
	line := 1 + strings.Count(text[:i], "\n")
	col := i - strings.LastIndex(text[:i], "\n")
	return fmt.Sprintf("line %d column %d", line, col)
}

// blameCase: many files, of which one has something wrong.
func blameCase(t *T) {
	g := t.gen()
	c := &Case{Files: map[string]string{}, Env: map[string]string{}}
	n := 2 + g.n(12)
	if g.p(10) {
		n += g.n(60)
	}
	seen := map[string]bool{}
	token := func(prefix string) string {
		for {
			s := fmt.Sprintf("%s%05dq", prefix, g.n(100000))
			if !seen[s] {
				seen[s] = true
				return s
			}
		}
	}
	dirs := []string{"src", "src/sub", "src/other/sub"}
	var paths []string
	docs := map[string][]string{}
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("%s/%s.%s", dirs[g.n(len(dirs))], token("file"), g.pick("yaml", "yaml", "yml"))
		paths = append(paths, p)
		for k := 1 + g.n(4); k > 0; k-- {
			docs[p] = append(docs[p], g.failDoc()+"victim: 3\nlist2:\n- v: 1\n- v: 2\n")
		}
	}
	bad := paths[g.n(n)]
	di := g.n(len(docs[bad]))
	tok := func(p string) string { return strings.TrimSuffix(path.Base(p), path.Ext(p)) }

	good := []string{"{query: m.a, value: 2}", `{query: "$.n", value: 7, action: replace}`, `{query: gone, action: delete}`, `{query: "$.list[?(@.k=='v')].w", value: "%v-more"}`,
		`{query: n, action: combine, value: 3, documentIndex: [0]}`, `{query: new.path, value: {a: b}, onMissing: {action: inject}}`,
		`{query: "$.b", value: false, documentQuery: [{conditions: [{query: s, value: text}]}]}`, `{query: s, value: [merged], action: replace}`}
	var common []string
	perFile, perDoc := map[string][]string{}, map[string][]string{}
	for k := g.n(4); k > 0; k-- {
		common = append(common, g.pick(good...))
	}
	for _, p := range paths {
		for k := g.n(3) * g.n(2); k > 0; k-- {
			perFile[p] = append(perFile[p], g.pick(good...))
		}
	}
	ins := func(l []string, o string) []string {
		i := g.n(len(l) + 1)
		return append(append(append([]string{}, l[:i]...), o), l[i:]...)
	}

	bl := blame{doc: -1, names: []string{tok(bad)}}
	inDir := g.p(30) // the files are listed by their directory
	byFlag := false  // … given by -p
	stdout := g.p(40)
	values := g.p(25)
	kind := g.n(7)
	var after func()
	was := map[string][]string{} // the documents before they were made to fail
	var victim string
	badInstr := "" // mark in the instructions
	switch kind {
	case 0, 1: // an overlay which cannot be applied to one document
		type v struct{ text, mark, query, value string }
		x := []v{
			{"victim: {deep: 1}\n", "{deep", "victim", "1"},
			{"victim: [17, 2]\n", "[17", "$.victim", "1"},
			{"victim: !!x {}\n", "!!x", "victim", "false"},
			{"list2:\n- v: 1\n- v: {deep: 1}\n", "{deep", "$.list2[*].v", "2"},
			{"list2:\n- v: 1\n- v: [17]\n", "[17", "$..v", "2"},
			{"victim: {deep: 1}\n", "{deep", "$['victim']", "2"},
		}[g.n(6)]
		d := docs[bad][di]
		if strings.HasPrefix(x.text, "victim") {
			d = strings.Replace(d, "victim: 3\n", x.text, 1)
		} else {
			d = strings.Replace(d, "list2:\n- v: 1\n- v: 2\n", x.text, 1)
		}
		was[bad] = append([]string{}, docs[bad]...)
		docs[bad][di] = d
		after = func() {}
		victim = x.mark
		o := fmt.Sprintf(`{query: "%s", action: combine, value: %s}`, x.query, x.value)
		if g.p(20) {
			o = fmt.Sprintf(`{query: "%s", action: combine, value: %s, documentIndex: [%d]}`, x.query, x.value, di)
		} else if g.p(20) {
			o = fmt.Sprintf(`{query: "%s", action: combine, value: %s, documentQuery: [{conditions: [{query: s, value: text}]}]}`, x.query, x.value)
			perFile = map[string][]string{}
			common = nil
		}
		switch {
		case g.p(40) || inDir:
			common = ins(common, o)
			bl.what = "a common overlay"
			if !inDir && g.p(10) {
				byFlag = true
			}
		case g.p(60):
			perFile[bad] = ins(perFile[bad], o)
			bl.what = "an overlay of a file"
		default:
			perDoc[bad] = append(perDoc[bad], o)
			bl.what = "an overlay of a document"
		}
		bl.doc = di
	case 2: // a source which cannot be read
		bl.what = "a source"
		inDir = inDir || g.p(20)
		mode := g.n(3)
		after = func() {
			switch mode {
			case 0:
				if inDir {
					c.Links = map[string]string{bad: "nowhere.yaml"}
				}
				delete(c.Files, bad)
			case 1:
				c.Mode = map[string]uint32{bad: 0}
			default:
				c.Files[bad] = strings.TrimSuffix(c.Files[bad], "\n") + "\n---\n" + g.pick("zz: [1, 2\n", "zz: [1, 2\n", "a: b: c\n", "'x\n", panicYaml[0], panicYaml[1])
			}
		}
	case 3: // an output which cannot be written
		bl.what = "an output"
		stdout = false
		after = func() {} // see below
	case 4: // values
		bl.what = "a values file"
		values = false
		m := 1 + g.n(6)
		var vs []string
		for k := 0; k < m; k++ {
			v := token("vals") + ".yaml"
			vs = append(vs, v)
			c.Files[v] = g.pick("x: 1\n", "{}\n", "l: [1]\n")
			c.Args = append(c.Args, "-f", v)
		}
		v := vs[g.n(m)]
		bl.names = []string{tok(v)}
		mode := g.n(3)
		after = func() {
			switch mode {
			case 0:
				delete(c.Files, v)
			case 1:
				c.Mode = map[string]uint32{v: 0}
			default:
				c.Files[v] = g.pick("x: [1\n", "a: 'x\n", "a: b: c\n", "x: *nowhere\n", panicYaml[0], panicYaml[1])
			}
		}
	case 5: // a query of the instructions
		bl.what = "a query of the instructions"
		values = false
		badInstr = "bad[[0"
		bl.names = nil
		q := fmt.Sprintf(`"%s"`, badInstr)
		o := g.pick(`{query: %s, value: 1}`, `{value: 1, query: [s, n, %s]}`, `{query: s, value: 1, onMissing: {action: inject, injectPath: %s}}`,
			`{query: s, value: 1, onMissing: {action: inject, injectPath: [a, %s]}}`,
			`{query: s, value: 1, documentQuery: [{conditions: [{query: n, value: 1}, {query: %s, value: 1}]}]}`,
			`{query: s, value: 1, documentQuery: [{conditions: [{query: n, value: 1}]}, {conditions: [{query: %s}]}]}`)
		o = fmt.Sprintf(o, q)
		switch g.n(3) {
		case 0:
			common = ins(common, o)
		case 1:
			perFile[bad] = ins(perFile[bad], o)
			inDir = false
		default:
			perDoc[bad] = append(perDoc[bad], o)
			inDir = false
		}
	default: // an action of the instructions
		bl.what = "an action of the instructions"
		values = false
		badInstr = "{query: badly"
		bl.names = nil
		o := g.pick(`{query: badly, action: explode, value: 1}`, `{query: badly, value: 1, onMissing: {action: explode}}`)
		bl.names = []string{"explode"}
		switch g.n(3) {
		case 0:
			common = ins(common, o)
		case 1:
			perFile[bad] = ins(perFile[bad], o)
			inDir = false
		default:
			perDoc[bad] = append(perDoc[bad], o)
			inDir = false
		}
	}

	sep := g.pick("---\n", "---\n# next\n", "--- # x\n")
	for _, p := range paths {
		text := strings.Join(docs[p], sep)
		if g.p(50) {
			text = sep + text
		}
		c.Files[p] = text
	}
	if victim != "" {
		bl.place = []string{position(c.Files[bad], victim)}
	}
	var b strings.Builder
	if g.p(30) {
		b.WriteString("# instructions\n\n")
	}
	if len(common) > 0 {
		b.WriteString("commonOverlays:\n")
		for _, o := range common {
			b.WriteString("- " + o + "\n")
			if g.p(20) {
				b.WriteString("\n")
			}
		}
	}
	switch {
	case byFlag:
		c.Args = append(c.Args, "-p", "src")
	case inDir:
		b.WriteString("yamlFiles:\n- path: " + g.pick("src", "src/", "./src") + "\n" + g.pick("", "  name: all of them\n"))
	default:
		b.WriteString("yamlFiles:\n")
		for _, p := range paths {
			if g.p(25) {
				b.WriteString("- name: some name\n  path: " + p + "\n")
			} else {
				b.WriteString("- path: " + g.pick("", "", "./") + p + "\n")
			}
			if len(perFile[p]) > 0 {
				b.WriteString("  overlays:\n")
				for _, o := range perFile[p] {
					b.WriteString("  - " + o + "\n")
				}
			}
			if len(perDoc[p]) > 0 {
				fmt.Fprintf(&b, "  documents:\n  - path: %d\n    overlays:\n", di)
				for _, o := range perDoc[p] {
					b.WriteString("    - " + o + "\n")
				}
			}
		}
	}
	instr := "instr" + token("") + ".yaml"
	if g.p(30) && !byFlag {
		instr = "conf/" + instr
		// paths are relative to the instructions
		for k, v := range c.Files {
			if strings.HasPrefix(k, "src/") {
				delete(c.Files, k)
				c.Files["conf/"+k] = v
			}
		}
		bad = "conf/" + bad
	}
	c.Files[instr] = b.String()
	if badInstr != "" {
		i := strings.Index(b.String(), badInstr)
		mark := badInstr
		if kind == 5 {
			mark = b.String()[i-1 : i+len(badInstr)]
		}
		bl.names = append(bl.names, tok(instr))
		bl.place = []string{position(b.String(), mark)}
	}
	c.Args = append(c.Args, "-i", instr)
	if values {
		c.Files["vals.yaml"] = "x: 1\n"
		c.Args = append(c.Args, "-f", "vals.yaml")
	}
	if stdout {
		c.Args = append(c.Args, "-s")
	} else {
		c.Args = append(c.Args, "-o", "out")
	}
	if after != nil {
		// it is this which is wrong: without it the run succeeds
		h := c.Clone()
		for _, l := range was {
			h.Files[bad] = strings.Join(l, sep)
		}
		r := t.run(h)
		if r == nil {
			return
		}
		if r.Exit != 0 {
			t.skip("fails without what is wrong")
			return
		}
		if strings.Contains(strings.ToLower(r.Stderr), "error") {
			t.fail(h, r, "an error is reported by a run which succeeds")
			return
		}
		t.count("runs_without_error")
		if kind == 3 {
			out := ""
			for k := range r.After {
				if _, old := r.Before[k]; !old && strings.Contains(k, tok(bad)) {
					out = k
				}
			}
			if out == "" {
				t.skip("no output")
				return
			}
			after = blameOutput(g, c, out)
		}
		after()
	}
	t.sig(bl.what, c.Files, c.Args)
	r := t.run(c)
	if r == nil {
		return
	}
	if r.Exit == 0 || r.Crash() != "" {
		// what has to fail is told by C19
		t.skip("does not fail")
		return
	}
	msg := comma.ReplaceAllString(r.Stderr, "$1 $2")
	t.count(strings.ReplaceAll(bl.what, " ", "_"))
	t.addn("files", int64(n))
	for _, w := range bl.names {
		if !strings.Contains(msg, w) {
			t.fail(c, r, fmt.Sprintf("the message about %s does not name %s", bl.what, w))
			return
		}
	}
	for _, p := range paths {
		if w := tok(p); (tok(bad) != w || badInstr != "" || kind == 4) && strings.Contains(msg, w) {
			t.fail(c, r, fmt.Sprintf("the message about %s (%s) names %s, which has nothing wrong", bl.what, strings.Join(bl.names, ", "), p))
			return
		}
	}
	if bl.doc >= 0 {
		m := documentWord.FindAllStringSubmatch(msg, -1)
		if len(m) == 0 {
			t.fail(c, r, "the message does not tell the document")
			return
		}
		for _, x := range m {
			if x[1] != fmt.Sprint(bl.doc) {
				t.fail(c, r, fmt.Sprintf("the message tells document %s, it is document %d which the overlay cannot be applied to", x[1], bl.doc))
				return
			}
		}
		t.count("documents_told")
	}
	if len(bl.place) > 0 {
		ok := false
		for _, p := range bl.place {
			ok = ok || regexp.MustCompile(p+`\b`).MatchString(msg)
		}
		if !ok {
			t.fail(c, r, fmt.Sprintf("the message about %s does not tell the place: %s", bl.what, strings.Join(bl.place, " or ")))
			return
		}
		t.count("places_told")
	}
}

// blameOutput makes one output impossible to write.
func blameOutput(g *Gen, c *Case, out string) func() {
	switch g.n(3) {
	case 0:
		return func() { c.Dirs = append(c.Dirs, out) }
	case 1:
		return func() {
			c.Files[out] = "older\n"
			c.Mode = map[string]uint32{out: 0o444}
		}
	}
	return func() {
		c.Dirs = append(c.Dirs, path.Dir(out))
		c.Links = map[string]string{out: "/dev/full"}
	}
}

func init() {
	register(&Prop{id: "C30", quick: 900, thorough: 12000,
		rule:    "a case has 2 to 70 sources of one to four documents and exactly one thing which is wrong, at a place which is known by construction; every file has a name of its own, which occurs nowhere else; distinct by what is wrong, files and arguments",
		assume:  []string{"a message tells a document as the word document and its index"},
		min:     map[string]int64{"documents_told": 150, "places_told": 200, "runs_without_error": 200, "a_source": 50, "an_output": 40, "a_values_file": 40, "a_query_of_the_instructions": 60, "an_action_of_the_instructions": 60},
		perCase: blameCase})
}
