package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"
	"gopkg.in/yaml.v3"
)

type (
	vmap  = map[string]interface{}
	vlist = []interface{}
)

// tmplGen turns a text into a template and values which give the text again.
type tmplGen struct {
	g     *Gen
	root  vmap
	n     int
	forms []string
	bare  bool // without values
	env   map[string]string
	id    int
}

// put stores a value below a new key, at some depth, and returns the expression for it.
func (x *tmplGen) put(v interface{}) string {
	m := x.root
	p := ""
	for x.g.p(35) {
		k := fmt.Sprintf("g%d", x.g.n(3))
		if x.g.p(10) {
			k = "values"
		}
		c, ok := m[k].(vmap)
		if !ok {
			c = vmap{}
			m[k] = c
		}
		m = c
		p += "." + k
	}
	x.n++
	k := fmt.Sprintf("k%d", x.n)
	m[k] = v
	return p + "." + k
}

func (x *tmplGen) pieces(s string) vlist {
	l := vlist{}
	for s != "" {
		n := 1 + x.g.n(5)
		if n > len(s) {
			n = len(s)
		}
		for n < len(s) && !utf8.RuneStart(s[n]) {
			n++
		}
		l = append(l, s[:n])
		s = s[n:]
	}
	return l
}

var digits = regexp.MustCompile(`^[1-9][0-9]{0,7}$`)

// expr is a piece of template which renders to s.
func (x *tmplGen) expr(s string) string {
	g := x.g
	form := g.n(40)
	if x.bare {
		form = []int{10, 18, 19, 26, 27, 28, 32, 39}[g.n(8)]
	}
	x.forms = append(x.forms, fmt.Sprint(form))
	q := strconv.Quote
	switch form {
	case 0:
		return "{{ " + x.put(s) + " | toString }}"
	case 1:
		return "{{ print " + x.put(s) + " }}"
	case 2:
		return `{{ printf "%s" ` + x.put(s) + " }}"
	case 3:
		if digits.MatchString(s) {
			n, _ := strconv.Atoi(s)
			if g.p(50) {
				return "{{ " + x.put(n) + " }}"
			}
			return "{{ add " + x.put(n-3) + " 3 }}"
		}
	case 4:
		return "{{ if " + x.put(true) + " }}" + s + "{{ else }}: [not this{{ end }}"
	case 5:
		return "{{ if not " + x.put(false) + " }}" + s + "{{ end }}{{ if " + x.put(nil) + " }}not this{{ end }}"
	case 6:
		return "{{ range " + x.put(x.pieces(s)) + " }}{{ . }}{{ end }}"
	case 7:
		return "{{ range $i, $e := " + x.put(x.pieces(s)) + " }}{{ $e }}{{ end }}"
	case 8:
		return `{{ join "" ` + x.put(x.pieces(s)) + " }}"
	case 9:
		return "{{ " + x.put(nil) + " | default " + q(s) + " }}"
	case 10:
		return "{{ default " + q(s) + " .not_there }}"
	case 11:
		return `{{ index ` + x.put(vmap{"a-b": s, "other": "x"}) + ` "a-b" }}`
	case 12:
		return "{{ with " + x.put(vmap{"v": s}) + " }}{{ .v }}{{ end }}"
	case 13:
		if u := strings.ToUpper(s); strings.ToLower(u) == s {
			return "{{ lower " + x.put(u) + " }}"
		}
	case 14:
		return "{{ b64dec " + x.put(base64.StdEncoding.EncodeToString([]byte(s))) + " }}"
	case 15:
		m := vmap{}
		for i, p := range x.pieces(s) {
			m[fmt.Sprintf("p%03d", i)] = p
		}
		return "{{ range $k, $v := " + x.put(m) + " }}{{ $v }}{{ end }}"
	case 16:
		return "{{ " + x.put(s+"-cut") + ` | trimSuffix "-cut" }}`
	case 17:
		if len(s) > 1 && !strings.HasPrefix(s[1:], " ") && s[0] > ' ' && s[0] < 0x80 && s[1] > ' ' {
			return s[:1] + "  {{- \"\" -}}\n " + s[1:]
		}
	case 18:
		x.n++
		return fmt.Sprintf("{{ define \"t%d\" }}%s{{ end }}{{ template \"t%d\" . }}", x.n, s, x.n)
	case 19:
		return "{{/* a note */}}" + s
	case 20:
		return fmt.Sprintf("{{ ternary %s \"not this\" %s }}", q(s), x.put(true))
	case 21:
		l := vlist{s, "x", s + "y", 5, s}
		switch g.n(3) {
		case 0:
			return "{{ index " + x.put(l) + " 0 }}"
		case 1:
			return "{{ first " + x.put(l) + " }}"
		}
		return "{{ last " + x.put(l) + " }}"
	case 22:
		x.n++
		return fmt.Sprintf("{{ $v%d := %s }}{{ $v%d }}", x.n, x.put(s), x.n)
	case 23:
		if u, err := strconv.Unquote(s); err == nil && strings.HasPrefix(s, `"`) && q(u) == s {
			return "{{ " + x.put(u) + " | quote }}"
		}
	case 26:
		return "{{ print " + q(s) + " }}"
	case 27, 28: // the environment
		if !strings.ContainsAny(s, "\x00@") {
			x.n++
			n := fmt.Sprintf("YOTVERIF_T%d_%d", x.id, x.n)
			x.env[n] = s
			os.Setenv(n, s)
			if form == 28 {
				return "{{ \"${" + n + "}\" | expandenv }}"
			}
			return "{{ env \"" + n + "\" }}"
		}
	case 29:
		return "{{ get (dict \"a\" 1 \"b\" " + x.put(s) + ") \"b\" }}"
	case 30:
		return "{{ coalesce " + x.put(nil) + " \"\" " + x.put(s) + " }}"
	case 31:
		return "{{ range $i := until 3 }}{{ if eq $i 1 }}{{ " + "$" + x.put(s) + " }}{{ end }}{{ end }}"
	case 32:
		return "{{ list " + q(s) + " \"x\" | first }}"
	case 33:
		return "{{ splitList \"%,%\" " + x.put(strings.Join(strs(x.pieces(s)), "%,%")) + " | join \"\" }}"
	case 34:
		if b, err := json.Marshal(s); err == nil {
			return "{{ fromJson " + x.put(string(b)) + " }}"
		}
	case 35:
		return "{{ repeat 1 " + x.put(s) + " | replace \"\\x01\" \"\" }}"
	case 36:
		return "{{ $d := dict }}{{ $_ := set $d \"k\" " + x.put(s) + " }}{{ $d.k }}"
	case 37:
		return "{{ with $x := " + x.put(s) + " }}{{ block \"b" + x.put("n")[1:] + "\" $x }}{{ . }}{{ end }}{{ end }}"
	case 38:
		if len(s) > 0 {
			return "{{ substr 0 " + fmt.Sprint(len(s)) + " " + x.put(s+"tail") + " }}"
		}
	case 39:
		// every function of the library can be named, whatever it is for
		var l string
		for k := 1 + g.n(12); k > 0; k-- {
			l += "{{ $_ := " + sprigNames[g.n(len(sprigNames))] + " }}"
		}
		return "{{ if false }}" + l + "{{ end }}" + s
	case 24:
		return "{{ eq " + x.put(3) + " 3 | ternary " + q(s) + " \"\" }}"
	}
	return "{{ " + x.put(s) + " }}"
}

// template replaces parts of the text. Literal braces are kept.
func (x *tmplGen) template(s string) string {
	var b strings.Builder
	for s != "" {
		n := x.g.n(120)
		if n > len(s) {
			n = len(s)
		}
		for n < len(s) && !utf8.RuneStart(s[n]) {
			n++
		}
		b.WriteString(s[:n])
		s = s[n:]
		n = 1 + x.g.n(25)
		if x.g.p(30) {
			n = 1 + x.g.n(80)
		}
		if n > len(s) {
			n = len(s)
		}
		for n < len(s) && !utf8.RuneStart(s[n]) {
			n++
		}
		if n > 0 {
			b.WriteString(x.expr(s[:n]))
			s = s[n:]
		}
	}
	return b.String()
}

// sprigNames lists the functions which a template can use.
var sprigNames = func() []string {
	var l []string
	for n := range sprig.TxtFuncMap() {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}()

func strs(l vlist) []string {
	var r []string
	for _, e := range l {
		r = append(r, fmt.Sprint(e))
	}
	return r
}

type absent struct{}

func (g *Gen) otherValue() interface{} {
	switch g.n(6) {
	case 0:
		return nil
	case 1:
		return vlist{"older", 1}
	case 2:
		return vmap{"older": "x"}
	case 3:
		return 42
	case 4:
		return false
	}
	return "older %v"
}

// split distributes a value to files, such that merging the files gives the value again.
func (g *Gen) split(v interface{}, n int) []interface{} {
	r := make([]interface{}, n)
	for i := range r {
		r[i] = absent{}
	}
	last := g.n(n)
	first := g.n(last + 1)
	switch v := v.(type) {
	case vmap:
		if first > 0 && g.p(20) {
			o := g.otherValue()
			if _, ok := o.(vmap); !ok {
				r[g.n(first)] = o
			}
		}
		span := last - first + 1
		ms := make([]vmap, span)
		for i := range ms {
			ms[i] = vmap{}
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			for i, e := range g.split(v[k], span) {
				if _, no := e.(absent); !no {
					ms[i][k] = e
				}
			}
		}
		for i, m := range ms {
			if i == 0 || len(m) > 0 || g.p(20) {
				r[first+i] = m
			}
		}
	case vlist:
		if first > 0 && g.p(20) {
			o := g.otherValue()
			if _, ok := o.(vlist); !ok {
				r[g.n(first)] = o
			}
		}
		rest := v
		for i := first; i <= last; i++ {
			k := g.n(len(rest) + 1)
			if i == last {
				k = len(rest)
			}
			if k > 0 || i == last || i == first || g.p(20) {
				r[i] = append(vlist{}, rest[:k]...)
			}
			rest = rest[k:]
		}
	default:
		for i := 0; i < last; i++ {
			if g.p(30) {
				r[i] = g.otherValue()
			}
		}
		r[last] = v
	}
	return r
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// mergeModel is what the documentation says about several values files.
func mergeModel(o, n interface{}) interface{} {
	if om, ok := o.(vmap); ok {
		if nm, ok := n.(vmap); ok {
			r := vmap{}
			for k, v := range om {
				r[k] = v
			}
			for k, v := range nm {
				if x, ok := r[k]; ok {
					v = mergeModel(x, v)
				}
				r[k] = v
			}
			return r
		}
	}
	if ol, ok := o.(vlist); ok {
		if nl, ok := n.(vlist); ok {
			return append(append(vlist{}, ol...), nl...)
		}
	}
	return n
}

func (g *Gen) valuesText(v interface{}) string {
	if g.p(50) {
		if b, err := json.Marshal(v); err == nil {
			return string(b) + "\n"
		}
	}
	b, err := yaml.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(v)
	}
	s := string(b)
	if g.p(30) {
		s = "---\n# values\n" + s
	}
	return s
}

func tmplCase(t *T) {
	g := t.gen()
	g.comments = g.n(20)
	g.wild = g.p(40)
	b := t.builder(g)
	for i := 0; i < 1+g.n(2); i++ {
		b.file(fmt.Sprintf("src/f%d.yaml", i), 1+g.n(2), b.doc)
	}
	b.spread(1+g.n(4), func(docs []*Node) *Ov {
		return b.ov(docs, ovOpt{expr: 20, multi: 10, actions: []string{"merge", "replace", "delete"}})
	})
	if g.p(20) {
		b.s.IPath = "in/i.yaml"
	}
	if g.p(25) { // text which looks like a template or a format marker
		b.addCommon(func() *Ov {
			o := b.ov(b.inScope(all), ovOpt{expr: 0, actions: []string{"replace"}})
			if o != nil {
				o.Value = qs(g.pick("{{ .x }}", "{{ nofunction", "a {{/* b */}} c", "}}{{", "{{ .Values.name }}-{{ end }}", "{{"))
			}
			return o
		})
	}
	if g.p(15) {
		b.addCommon(func() *Ov {
			o := b.ov(b.inScope(all), ovOpt{expr: 0, actions: []string{"replace"}})
			if o != nil {
				o.Value = qs(g.pick("<no value>", "a <no value> b", "<no value><no value>", "&lt;<no value>&#34;"))
			}
			return o
		})
	}
	s := b.done()
	s.Stdout = g.p(50)
	if !utf8.ValidString(s.Instr) {
		t.skip("not UTF-8")
		return
	}
	t.sig(s.Instr, s.Sources)
	r1 := t.judge(s, judgeOpt{})
	if r1 == nil {
		return
	}
	if strings.Contains(s.Instr, "{{") {
		t.count("braces_without_values_are_literal")
	}
	if r1.Exit != 0 {
		return
	}
	x := &tmplGen{g: g, root: vmap{}, bare: g.p(8), env: map[string]string{}, id: t.idx}
	defer func() {
		for n := range x.env {
			os.Unsetenv(n)
		}
	}()
	// braces of the text itself must not be taken as actions
	var tm string
	parts := strings.Split(s.Instr, "{{")
	for i, p := range parts {
		if i > 0 {
			tm += g.pick(`{{ "{{" }}`, "{{ print \"{\" \"{\" }}")
		}
		for j, p := range strings.Split(p, "<no value>") {
			if j > 0 { // what a value which is not there gives
				tm += g.pick("{{ .not_there }}", "{{ print .absent }}", "<no value>", "{{ .nothing }}", "{{ with .x }}x{{ else }}<no value>{{ end }}")
				t.count("missing_values")
			}
			tm += x.template(p)
		}
	}
	if strings.Contains(s.Instr, "{{") && strings.Contains(s.Instr, "}}") {
		t.count("literal_braces_in_template")
	}
	nf := 1 + g.n(4)
	if x.bare {
		nf = 1
		t.count("without_values")
	}
	files := g.split(x.root, nf)
	var merged interface{}
	var rendered string
	var texts []string
	for i, f := range files {
		if _, no := f.(absent); no {
			f = vmap{}
		}
		texts = append(texts, g.valuesText(f))
		if m, ok := f.(vmap); ok && len(m) == 0 && i == 0 && g.p(60) {
			texts[0] = g.pick("~\n", "null\n", "---\n", "# nothing\n---\n", "{}\n")
		}
		var v interface{}
		if err := yaml.Unmarshal([]byte(texts[i]), &v); err != nil {
			t.skip("values which the YAML library cannot read")
			return
		}
		if i == 0 {
			merged = v
		} else {
			merged = mergeModel(merged, v)
		}
	}
	// the generator and the model have to agree on the text
	tp, err := template.New("x").Funcs(sprig.TxtFuncMap()).Option("missingkey=zero").Parse(tm)
	if err == nil {
		var buf bytes.Buffer
		err = tp.Execute(&buf, merged)
		rendered = buf.String()
	}
	if err != nil || rendered != s.Instr {
		t.count("generator_disagrees")
		if t.h.verbose {
			fmt.Println("DISAGREE", err, lineDiff(rendered, s.Instr))
		}
		t.skip("the template does not give the text")
		return
	}
	s2 := *s
	s2.Instr = tm
	c := s2.Case()
	for n, v := range x.env {
		c.Env[n] = v
	}
	for i, txt := range texts {
		n := fmt.Sprintf("values/v%d.yaml", i)
		c.Files[n] = txt
		switch g.n(3) {
		case 0:
			c.Args = append(c.Args, "-f", n)
		case 1:
			c.Args = append(c.Args, "--values-file="+n)
		default:
			c.Args = append([]string{"-f", n}, c.Args...)
		}
	}
	// flags in front are in reverse order
	c.Args = orderValues(c.Args)
	r2 := t.run(c)
	if r2 == nil {
		return
	}
	if cr := r2.Crash(); cr != "" || r2.Exit != r1.Exit {
		t.fail(c, r2, fmt.Sprintf("exit status %d with the template, %d with the rendered text: %s %s", r2.Exit, r1.Exit, cr, firstLines(r2.Stderr, 3)))
		return
	}
	a, bb := t.allOut(r1, s), t.allOut(r2, s)
	if a != bb {
		t.fail(c, r2, "the output differs from the one by the rendered text: "+lineDiff(bb, a))
		return
	}
	t.count("templates_compared")
	t.count(fmt.Sprintf("values_files_%d", nf))
	for _, f := range x.forms {
		t.count("form_" + f)
	}
}

// orderValues puts the values files in their order, at the places where there are some.
func orderValues(args []string) []string {
	var places []int
	var names []string
	for i, a := range args {
		if i > 0 && args[i-1] == "-f" {
			places = append(places, i)
			names = append(names, a)
		} else if strings.HasPrefix(a, "--values-file=") {
			places = append(places, i)
			names = append(names, strings.TrimPrefix(a, "--values-file="))
		}
	}
	sortStrings(names)
	for k, i := range places {
		if strings.HasPrefix(args[i], "--") {
			args[i] = "--values-file=" + names[k]
		} else {
			args[i] = names[k]
		}
	}
	return args
}

// valuesCase shows the merged values themselves, by a template which puts them into the document.
func valuesCase(t *T) {
	g := t.gen()
	typed := g.p(35) // keys which are not all strings
	var val func(d int) interface{}
	val = func(d int) interface{} {
		switch k := g.n(10); {
		case k < 3 && d > 0:
			if typed && g.p(40) {
				m := map[interface{}]interface{}{}
				for i := 1 + g.n(4); i > 0; i-- {
					m[[]interface{}{"a", "b", "1", 1, 2, true, 1.5, "true"}[g.n(8)]] = val(d - 1)
				}
				return m
			}
			m := vmap{}
			for i := g.n(4); i > 0; i-- {
				m[g.pick("a", "b", "c", "d e", "é", "%k", "")] = val(d - 1)
			}
			return m
		case k < 5 && d > 0:
			l := vlist{}
			for i := g.n(4); i > 0; i-- {
				l = append(l, val(d-1))
			}
			return l
		case k == 5:
			return nil
		case k == 6:
			if g.p(25) {
				return []interface{}{9007199254740993, -9007199254740995, 9223372036854775807, uint64(18446744073709551615), 1.5, -0.1, 1e21, 123456789, 1e-7}[g.n(9)]
			}
			return g.n(1000) - 500
		case k == 7:
			return g.p(50)
		}
		return g.pick("text", "", "%v-more", "%v{s/a/b/}", "%h", "a: b", "# x", "yes", "12", "é日", "multi\nline", "null", "{{ .x }}")
	}
	var files []vmap
	many, depth, count := 0, 3, 1+g.n(4)
	if g.p(15) { // more keys, deeper, or more files than usual
		switch g.n(3) {
		case 0:
			many = 10 + g.n(60)
		case 1:
			depth = 4 + g.n(6)
		default:
			count = 4 + g.n(12)
		}
		t.count("large_values")
	}
	for k := count; k > 0; k-- {
		m := vmap{}
		for i := g.n(5); i > 0; i-- {
			m[g.pick("a", "b", "c", "list", "map")] = val(depth)
		}
		for i := g.n(many + 1); i > 0; i-- {
			m[fmt.Sprintf("key%d", g.n(80))] = val(1)
		}
		if typed && g.p(60) {
			m["map"] = val(3)
		}
		files = append(files, m)
	}
	c := &Case{Files: map[string]string{}, Env: map[string]string{}, Args: []string{"-i", "i.yaml", "-s"}}
	c.Files["f.yaml"] = "doc: 1\n"
	c.Files["i.yaml"] = "yamlFiles:\n- path: f.yaml\n  overlays:\n  - query: doc\n    action: replace\n    value: {{ toJson . }}\n"
	if typed {
		c.Files["i.yaml"] = typedJSON + strings.Replace(c.Files["i.yaml"], "{{ toJson . }}", `{{ template "any" . }}`, 1)
		t.count("keys_of_several_types")
	}
	var want interface{}
	for i, f := range files {
		n := fmt.Sprintf("v%d.yaml", i)
		c.Files[n] = g.valuesText(f)
		c.Args = append(c.Args, g.pick("-f", "--values-file"), n)
		var v interface{}
		if err := yaml.Unmarshal([]byte(c.Files[n]), &v); err != nil {
			t.skip("values which the YAML library cannot read")
			return
		}
		if i == 0 {
			want = typedKeys(v, typed)
		} else {
			want = mergeModel(want, typedKeys(v, typed))
		}
	}
	t.sig(c.Files)
	r := t.run(c)
	if r == nil {
		return
	}
	if cr := r.Crash(); cr != "" || r.Exit != 0 {
		t.fail(c, r, fmt.Sprintf("exit status %d %s %s", r.Exit, cr, firstLines(r.Stderr, 3)))
		return
	}
	var got struct{ Doc interface{} }
	if err := yaml.Unmarshal([]byte(r.Stdout), &got); err != nil {
		t.fail(c, r, "the output cannot be read: "+err.Error())
		return
	}
	if !reflect.DeepEqual(normal(got.Doc), normal(want)) {
		a, _ := json.MarshalIndent(normal(got.Doc), "", " ")
		b, _ := json.MarshalIndent(normal(want), "", " ")
		t.fail(c, r, "the merged values differ: "+lineDiff(string(a), string(b)))
		return
	}
	t.count("merged_values_compared")
}

// typedJSON is a template which writes a value like toJson, but has the types of keys in their names.
const typedJSON = `{{ define "any" }}{{ if kindIs "map" . }}{ {{- range $k, $v := . }}{{ printf "%T %v" $k $k | toJson }}: {{ template "any" $v }}, {{ end -}} }` +
	`{{ else if kindIs "slice" . }}[{{ range . }}{{ template "any" . }}, {{ end }}]{{ else }}{{ toJson . }}{{ end }}{{ end -}}
`

func typedKeys(v interface{}, typed bool) interface{} {
	if !typed {
		return v
	}
	switch v := v.(type) {
	case vmap:
		r := vmap{}
		for k, e := range v {
			r["string "+k] = typedKeys(e, true)
		}
		return r
	case map[interface{}]interface{}:
		r := vmap{}
		for k, e := range v {
			r[fmt.Sprintf("%T %v", k, k)] = typedKeys(e, true)
		}
		return r
	case vlist:
		r := vlist{}
		for _, e := range v {
			r = append(r, typedKeys(e, true))
		}
		return r
	}
	return v
}

// normal makes values comparable.
func normal(v interface{}) interface{} {
	switch v := v.(type) {
	case vmap:
		r := vmap{}
		for k, e := range v {
			r[k] = normal(e)
		}
		return r
	case vlist:
		r := vlist{}
		for _, e := range v {
			r = append(r, normal(e))
		}
		return r
	}
	return v
}

func init() {
	register(&Prop{id: "C22", quick: 4500, thorough: 40000,
		rule:   "a case generates instructions, replaces parts of their text by template expressions (fields, control flow, variables, definitions, whitespace trimming, two dozen forms with Sprig functions) and splits the values needed to one to four files such that merging gives them again; the run with template and values must equal the run with the text, which is judged by the model; a third of the cases shows the merged values with toJson and compares them with a model of merging; distinct by instructions, sources and values",
		assume: []string{modelTrust, "text/template and Sprig are trusted, templates are only judged if the same library gives the text from the values merged by the model"},
		min:    map[string]int64{"exit_0": 100},
		perCase: func(t *T) {
			if t.idx%3 == 2 {
				valuesCase(t)
				return
			}
			tmplCase(t)
		}})
}
