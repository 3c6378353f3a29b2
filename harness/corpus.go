package main

import (
	"bytes"
	"embed"
	"fmt"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

//go:embed corpus
var corpusFS embed.FS

type corpusOv struct {
	node  *Node
	query []string
}

var (
	corpusOvs     []corpusOv
	corpusSources []string // documents, as text
	corpusFiles   []string
)

// loadCorpus reads sources as they are in use, and overlays of the documentation and for these sources.
func loadCorpus() {
	if corpusOvs != nil {
		return
	}
	d, _ := corpusFS.ReadDir("corpus/src")
	for _, e := range d {
		b, _ := corpusFS.ReadFile("corpus/src/" + e.Name())
		s := string(b)
		if !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		corpusFiles = append(corpusFiles, s)
	}
	b, err := corpusFS.ReadFile("corpus/overlays.yaml")
	if err != nil {
		panic(err)
	}
	docs, err := parseDocs(string(b))
	if err != nil {
		panic(err)
	}
	for _, n := range docs[0].Content[0].Content {
		if _, err := readOverlay(n); err == nil {
			corpusOvs = append(corpusOvs, corpusOv{n, nil})
		}
	}
	sort.Strings(corpusFiles)
}

func init() { loadCorpus() }

func setKey(n *Node, key string, v *Node) {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key {
			n.Content[i+1] = v
			return
		}
	}
	n.Content = append(n.Content, &Node{Kind: yaml.ScalarNode, Value: key}, v)
}

func yamlNode(text string) *Node {
	d, err := parseDocs(text)
	if err != nil {
		panic(err)
	}
	return d[0].Content[0]
}

// corpusOverlay is one of the overlays, most often changed a little.
func (g *Gen) corpusOverlay(docs []*Node) *Node {
	var n *Node
	for try := 0; ; try++ {
		n = cloneNode(corpusOvs[g.n(len(corpusOvs))].node)
		o, err := readOverlay(n)
		if err != nil {
			continue
		}
		found := false
		for _, d := range docs {
			if len(d.Content) > 0 && len(findAll(o.paths, d)) > 0 {
				found = true
			}
		}
		if found || g.p(15) || try > 20 {
			break
		}
	}
	if child(n, "value") != nil && g.p(12) { // merge and replace have to have a value
		setKey(n, "action", yamlNode(g.pick("merge", "replace", "delete", "Merge", "replace")))
	}
	if g.p(8) {
		setKey(n, "onMissing", yamlNode(g.pick("{action: inject}", "{action: ignore}", "{action: inject, injectPath: metadata.labels.new}")))
	}
	if g.p(8) {
		setKey(n, "documentIndex", yamlNode(g.pick("[0]", "[1]", "[0, 2]", "[9]", "[1, 1]")))
	}
	if g.p(8) {
		setKey(n, "documentQuery", yamlNode(g.pick("[{conditions: [{query: kind, value: Service}]}]", "[{conditions: [{query: kind}]}]", "[{conditions: [{query: metadata.name, value: shop}, {query: spec}]}, {conditions: [{query: ..image}]}]")))
	}
	return n
}

func nodeText(n *Node) string {
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	e.SetIndent(2)
	if err := e.Encode(n); err != nil {
		return ""
	}
	e.Close()
	return b.String()
}

func listNode(l []*Node) *Node { return &Node{Kind: yaml.SequenceNode, Content: l} }

// corpusScenario is a run with sources and overlays as they are in use.
func (g *Gen) corpusScenario(maxOv int) *Scenario {
	s := &Scenario{Sources: map[string]string{}}
	var files []*Node
	var common []*Node
	var docs []*Node
	nf := 1 + g.n(3)
	for i := 0; i < nf; i++ {
		text := ""
		for k := 1 + g.n(2); k > 0; k-- {
			t := corpusFiles[g.n(len(corpusFiles))]
			if text != "" && !strings.HasPrefix(t, "---") {
				text += "---\n"
			}
			text += t
		}
		d, err := parseDocs(text)
		if err != nil {
			text = corpusFiles[0]
			d, _ = parseDocs(text)
		}
		docs = append(docs, d...)
		p := fmt.Sprintf("%s/f%d.%s", g.pick("src", "src", "src/sub"), i, g.pick("yaml", "yml"))
		s.Sources[p] = text
		f := yamlNode("path: " + p)
		var ovs []*Node
		for k := g.n(maxOv + 1); k > 0; k-- {
			ovs = append(ovs, g.corpusOverlay(d))
		}
		if len(ovs) > 0 {
			setKey(f, "overlays", listNode(ovs))
		}
		if len(d) > 0 && g.p(25) {
			e := yamlNode(fmt.Sprintf("[{path: %d}]", g.n(len(d)+1)))
			setKey(e.Content[0], "overlays", listNode([]*Node{g.corpusOverlay(d)}))
			e.Style = 0
			e.Content[0].Style = 0
			setKey(f, "documents", e)
		}
		files = append(files, f)
	}
	for k := g.n(maxOv + 1); k > 0; k-- {
		common = append(common, g.corpusOverlay(docs))
	}
	root := yamlNode("a: 1")
	root.Content = nil
	if len(common) > 0 {
		setKey(root, "commonOverlays", listNode(common))
	}
	setKey(root, "yamlFiles", listNode(files))
	s.Instr = nodeText(root)
	s.Inject = g.p(10)
	s.effInject = s.Inject
	s.Stdout = g.p(30)
	if g.p(15) {
		s.Indent = 2 + g.n(5)
	}
	return s
}

// corpusCase judges a run with sources and overlays as they are in use.
func corpusCase(t *T, maxOv int, o judgeOpt) *Result {
	g := t.gen()
	s := g.corpusScenario(maxOv)
	t.sig(s.Instr, s.Sources, s.Stdout, s.Inject)
	if s.Indent != 0 {
		o.indent = s.Indent
	}
	r := t.judge(s, o)
	if r != nil && r.Exit == 0 {
		t.count("realistic_runs")
	}
	return r
}
