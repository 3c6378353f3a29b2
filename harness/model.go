package main

// The reference model: a small sequential interpreter of instruction files over documents which were parsed by the
// YAML library. It follows the documentation of yot (docs/sections), not its code structure. Trusted: the YAML
// library's parser and the JSONPath library's evaluation of a query.

import (
	"errors"
	"fmt"
	"math/big"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/rwtodd/Go.Sed/sed"
	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
	"gopkg.in/yaml.v3"
)

// errUnspecified marks situations whose outcome the properties leave open; such cases are not judged.
var errUnspecified = errors.New("unspecified")

// errReject marks situations in which yot has to fail.
var errReject = errors.New("must be rejected")

type mOverlay struct {
	name    string
	queries []string
	paths   []*yamlpath.Path
	value   *Node
	action  string
	groups  [][]mCond // nil: no documentQuery
	hasDQ   bool
	missing string // "", default, ignore, inject
	inject  []string
	hasInj  bool
	docIdx  []int
	hasIdx  bool
}

type mCond struct {
	paths []*yamlpath.Path
	value *Node
}

type mDoc struct {
	idx      int
	overlays []*mOverlay
}

type mFile struct {
	path     string // absolute
	out      string
	overlays []*mOverlay
	docs     []mDoc
	nodes    []*Node
}

type mInstr struct {
	common []*mOverlay
	files  []*mFile
}

func child(m *Node, key string) *Node {
	if m == nil {
		return nil
	}
	if m.Kind == yaml.AliasNode {
		m = m.Alias
	}
	if m.Kind != yaml.MappingNode {
		return nil
	}
	for i := 0; i+1 < len(m.Content); i += 2 {
		if m.Content[i].Value == key {
			v := m.Content[i+1]
			if v.Kind == yaml.AliasNode {
				return v.Alias
			}
			return v
		}
	}
	for i := 0; i+1 < len(m.Content); i += 2 {
		if m.Content[i].Value == "<<" && m.Content[i].Tag == "!!merge" {
			return child(m.Content[i+1], key)
		}
	}
	return nil
}

func strOf(n *Node) string {
	if n == nil || n.Kind != yaml.ScalarNode || n.Tag == "!!null" {
		return ""
	}
	return n.Value
}

func listOf(n *Node) []*Node {
	if n == nil {
		return nil
	}
	switch n.Kind {
	case yaml.SequenceNode:
		var r []*Node
		for _, c := range n.Content {
			if c.Kind == yaml.AliasNode {
				c = c.Alias
			}
			r = append(r, c)
		}
		return r
	case yaml.ScalarNode:
		if n.Tag == "!!null" {
			return nil
		}
		return []*Node{n}
	}
	return nil
}

func newPaths(n *Node) (q []string, p []*yamlpath.Path, err error) {
	for _, x := range listOf(n) {
		s := strOf(x)
		yp, e := yamlpath.NewPath(s)
		if e != nil {
			return nil, nil, fmt.Errorf("%w: query %q", errReject, s)
		}
		q, p = append(q, s), append(p, yp)
	}
	return
}

func readOverlay(n *Node) (*mOverlay, error) {
	o := &mOverlay{}
	var err error
	if o.queries, o.paths, err = newPaths(child(n, "query")); err != nil {
		return nil, err
	}
	o.name = strOf(child(n, "name"))
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == "value" {
			o.value = n.Content[i+1]
		}
	}
	if o.value == nil {
		o.value = &Node{Kind: yaml.ScalarNode, Tag: "!!null"}
	}
	o.action = strings.ToLower(strOf(child(n, "action")))
	if o.action == "" {
		o.action = "merge"
	}
	switch o.action {
	case "merge", "replace", "delete", "combine":
	default:
		return nil, fmt.Errorf("%w: action", errReject)
	}
	if dq := child(n, "documentQuery"); dq != nil {
		o.hasDQ = true
		for _, g := range listOf(dq) {
			conds := []mCond{}
			for _, c := range listOf(child(g, "conditions")) {
				_, p, err := newPaths(child(c, "query"))
				if err != nil {
					return nil, err
				}
				conds = append(conds, mCond{paths: p, value: child(c, "value")})
			}
			o.groups = append(o.groups, conds)
		}
	}
	if om := child(n, "onMissing"); om != nil {
		o.missing = strings.ToLower(strOf(child(om, "action")))
		if ip := child(om, "injectPath"); ip != nil {
			o.hasInj = true
			if o.inject, _, err = newPaths(ip); err != nil {
				return nil, err
			}
		}
	}
	if di := child(n, "documentIndex"); di != nil {
		o.hasIdx = true
		for _, x := range listOf(di) {
			i, err := strconv.Atoi(x.Value)
			if err != nil {
				return nil, fmt.Errorf("%w: documentIndex", errReject)
			}
			o.docIdx = append(o.docIdx, i)
		}
	}
	return o, nil
}

func readOverlays(n *Node) (r []*mOverlay, err error) {
	for _, x := range listOf(n) {
		o, err := readOverlay(x)
		if err != nil {
			return nil, err
		}
		r = append(r, o)
	}
	return
}

// readInstr reads the text of an instruction file; dir is the directory it is in.
func readInstr(text, dir string) (*mInstr, error) {
	docs, err := parseDocs(text)
	if err != nil || len(docs) == 0 {
		return nil, fmt.Errorf("%w: instructions: %v", errReject, err)
	}
	root := docs[0]
	if len(root.Content) > 0 {
		root = root.Content[0]
	}
	in := &mInstr{}
	if in.common, err = readOverlays(child(root, "commonOverlays")); err != nil {
		return nil, err
	}
	for _, f := range listOf(child(root, "yamlFiles")) {
		mf := &mFile{path: strOf(child(f, "path")), out: strOf(child(f, "outputPath"))}
		if mf.path != "-" {
			if !path.IsAbs(mf.path) {
				mf.path = path.Join(dir, mf.path)
			}
			mf.path = path.Clean(mf.path)
		}
		if mf.overlays, err = readOverlays(child(f, "overlays")); err != nil {
			return nil, err
		}
		for _, d := range listOf(child(f, "documents")) {
			md := mDoc{}
			if p := child(d, "path"); p != nil {
				if md.idx, err = strconv.Atoi(p.Value); err != nil {
					return nil, fmt.Errorf("%w: documents path", errReject)
				}
			}
			if md.overlays, err = readOverlays(child(d, "overlays")); err != nil {
				return nil, err
			}
			mf.docs = append(mf.docs, md)
		}
		in.files = append(in.files, mf)
	}
	return in, nil
}

// vfs is the model's view of the file system: absolute path to content.
type vfs map[string]string

func (v vfs) isDir(p string) bool {
	for f := range v {
		if strings.HasPrefix(f, strings.TrimSuffix(p, "/")+"/") {
			return true
		}
	}
	return false
}

// yamlBelow lists the yaml files below a directory, entries of each directory in lexical order.
func (v vfs) yamlBelow(dir string) []string {
	names := map[string]bool{}
	pre := strings.TrimSuffix(dir, "/") + "/"
	for f := range v {
		if strings.HasPrefix(f, pre) {
			names[strings.SplitN(f[len(pre):], "/", 2)[0]] = true
		}
	}
	var l []string
	for n := range names {
		l = append(l, n)
	}
	sort.Strings(l)
	var r []string
	for _, n := range l {
		p := pre + n
		if _, ok := v[p]; ok {
			if e := path.Ext(n); e == ".yaml" || e == ".yml" {
				r = append(r, p)
			}
			continue
		}
		r = append(r, v.yamlBelow(p)...)
	}
	return r
}

func (in *mInstr) expand(v vfs) error {
	var r []*mFile
	for _, f := range in.files {
		if f.path == "-" {
			r = append(r, f)
			continue
		}
		if _, ok := v[f.path]; ok {
			r = append(r, f)
			continue
		}
		if !v.isDir(f.path) {
			return fmt.Errorf("%w: no such file %s", errReject, f.path)
		}
		if f.out != "" && path.Ext(f.out) != "" {
			return fmt.Errorf("%w: directory with file as outputPath", errReject)
		}
		for _, p := range v.yamlBelow(f.path) {
			g := *f
			g.path = p
			if f.out != "" {
				g.out = path.Join(f.out, strings.TrimPrefix(p, strings.TrimSuffix(f.path, "/")+"/"))
			}
			r = append(r, &g)
		}
	}
	in.files = r
	return nil
}

func (in *mInstr) dedup() {
	var r []*mFile
	at := map[string]*mFile{}
	for _, f := range in.files {
		g, ok := at[f.path]
		if !ok {
			c := *f
			c.overlays = append([]*mOverlay{}, f.overlays...)
			c.docs = append([]mDoc{}, f.docs...)
			at[f.path] = &c
			r = append(r, &c)
			continue
		}
		g.overlays = append(g.overlays, f.overlays...)
		g.docs = append(g.docs, f.docs...)
		if f.out != "" {
			g.out = f.out
		}
	}
	in.files = r
}

// outputs determines the place of each output below the output directory (or an absolute path).
func (in *mInstr) outputs() {
	var dirs [][]string
	for _, f := range in.files {
		if f.path != "-" {
			dirs = append(dirs, strings.Split(strings.Trim(path.Dir(f.path), "/"), "/"))
		}
	}
	var common []string
	if len(dirs) > 0 {
		common = dirs[0]
		for _, d := range dirs[1:] {
			n := 0
			for n < len(common) && n < len(d) && common[n] == d[n] {
				n++
			}
			common = common[:n]
		}
	}
	pre := "/" + strings.Join(common, "/")
	if pre != "/" {
		pre += "/"
	}
	for _, f := range in.files {
		switch {
		case f.out == "" && f.path == "-":
			f.out = "-"
		case f.out == "":
			f.out = strings.TrimPrefix(f.path, pre)
		case path.Ext(f.out) == "":
			f.out = path.Join(f.out, path.Base(f.path))
		default:
			f.out = path.Clean(f.out)
		}
	}
}

// mOpts are the settings which change data.
type mOpts struct {
	inject         bool // default onMissing action
	removeComments bool
	trace          *mTrace
}

// mTrace counts what the model saw, it becomes part of the evidence.
type mTrace struct {
	Applied, Matched, Missed, Injected, Gated, Replaced, Deleted, Merged, Combined, Docs, Files, Keys int
}

func (t *mTrace) add(o mTrace) {
	t.Applied += o.Applied
	t.Matched += o.Matched
	t.Missed += o.Missed
	t.Injected += o.Injected
	t.Gated += o.Gated
	t.Replaced += o.Replaced
	t.Deleted += o.Deleted
	t.Merged += o.Merged
	t.Combined += o.Combined
	t.Docs += o.Docs
	t.Files += o.Files
	t.Keys += o.Keys
}

// apply runs all overlays of a file over its documents.
func (in *mInstr) apply(f *mFile, opt *mOpts) error {
	for i, d := range f.nodes {
		opt.trace.Docs++
		if opt.removeComments {
			clearComments(d)
		}
		var todo []*mOverlay
		for _, o := range append(append([]*mOverlay{}, in.common...), f.overlays...) {
			if o.hasIdx && !contains(o.docIdx, i) {
				continue
			}
			todo = append(todo, o)
		}
		for _, md := range f.docs {
			if md.idx == i {
				todo = append(todo, md.overlays...)
			}
		}
		for _, o := range todo {
			if err := o.applyTo(d, opt); err != nil {
				return err
			}
		}
	}
	return nil
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func clearComments(n *Node) {
	n.HeadComment, n.LineComment, n.FootComment = "", "", ""
	for _, c := range n.Content {
		clearComments(c)
	}
}

func findAll(paths []*yamlpath.Path, d *Node) []*Node {
	if len(d.Content) == 0 {
		return nil
	}
	var r []*Node
	for _, p := range paths {
		x, ok := safeFind(p, d)
		if !ok {
			panic(errFind)
		}
		r = append(r, x...)
	}
	return r
}

// errFind: the JSONPath library cannot evaluate some comparisons (0x10 > 2), what happens then is left open.
var errFind = fmt.Errorf("%w: query which the JSONPath library cannot evaluate", errUnspecified)

func safeFind(p *yamlpath.Path, d *Node) (r []*Node, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	r, _ = p.Find(d)
	return r, true
}

func (o *mOverlay) qualifies(d *Node) (bool, error) {
	if !o.hasDQ || len(o.groups) == 0 {
		return true, nil
	}
	for _, g := range o.groups {
		ok := true
		for _, c := range g {
			res := findAll(c.paths, d)
			if len(res) == 0 {
				ok = false
				break
			}
			if c.value != nil {
				hit := false
				for _, r := range res {
					if sameData(r, c.value) {
						hit = true
					} else if canon(unordered(r)) == canon(unordered(c.value)) {
						return false, fmt.Errorf("%w: a condition whose value has the keys of a mapping in another order", errUnspecified)
					}
				}
				if !hit {
					ok = false
					break
				}
			}
		}
		if ok {
			return true, nil
		}
	}
	return false, nil
}

// unordered is a copy in which the keys of each mapping are sorted.
func unordered(n *Node) *Node {
	c := cloneNode(n)
	done := map[*Node]bool{}
	var walk func(x *Node)
	walk = func(x *Node) {
		if x == nil || done[x] {
			return
		}
		done[x] = true
		walk(x.Alias)
		for _, k := range x.Content {
			walk(k)
		}
		if x.Kind != yaml.MappingNode {
			return
		}
		type pair struct {
			t    string
			k, v *Node
		}
		var l []pair
		for i := 0; i+1 < len(x.Content); i += 2 {
			l = append(l, pair{canon(x.Content[i]), x.Content[i], x.Content[i+1]})
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].t < l[j].t })
		for i, p := range l {
			x.Content[2*i], x.Content[2*i+1] = p.k, p.v
		}
	}
	walk(c)
	return c
}

func sameData(a, b *Node) bool { return canon(a) == canon(b) }

func (o *mOverlay) applyTo(d *Node, opt *mOpts) (rerr error) {
	defer func() {
		if p := recover(); p != nil {
			if p != errFind {
				panic(p)
			}
			rerr = errFind
		}
	}()
	ok, err := o.qualifies(d)
	if err != nil {
		return err
	}
	if !ok {
		opt.trace.Gated++
		return nil
	}
	opt.trace.Applied++
	res := findAll(o.paths, d)
	if len(res) == 0 {
		opt.trace.Missed++
		return o.missed(d, opt)
	}
	opt.trace.Matched += len(res)
	if o.action != "delete" {
		if why := overlapping(res); why != "" {
			return fmt.Errorf("%w: %s", errUnspecified, why)
		}
	}
	if keys := keyResults(d, res); keys > 0 {
		opt.trace.Keys += keys
		defer func() {
			if rerr == nil && duplicateKeys(d) {
				rerr = fmt.Errorf("%w: keys of a mapping become equal", errUnspecified)
			}
		}()
	}
	for _, n := range res {
		if n.Kind == yaml.DocumentNode && o.action != "delete" {
			return fmt.Errorf("%w: %s of a whole document node", errUnspecified, o.action)
		}
		switch o.action {
		case "delete":
			opt.trace.Deleted++
			deleteIn(d, n)
		case "replace":
			opt.trace.Replaced++
			replaceWith(n, o.value)
		case "combine":
			opt.trace.Combined++
			if err := combineWith(n, o.value); err != nil {
				return err
			}
		default:
			opt.trace.Merged++
			if err := mergeWith(n, o.value, ""); err != nil {
				return err
			}
		}
	}
	return nil
}

// keyResults counts the results which are keys of mappings.
func keyResults(d *Node, res []*Node) int {
	set := map[*Node]bool{}
	for _, n := range res {
		set[n] = true
	}
	c := 0
	var walk func(n *Node)
	walk = func(n *Node) {
		for i, x := range n.Content {
			if n.Kind == yaml.MappingNode && i%2 == 0 && set[x] {
				c++
			}
			walk(x)
		}
	}
	walk(d)
	return c
}

func duplicateKeys(n *Node) bool {
	seen := map[string]bool{}
	for i, x := range n.Content {
		if n.Kind == yaml.MappingNode && i%2 == 0 {
			k := canonStr(x)
			if seen[k] {
				return true
			}
			seen[k] = true
		}
		if duplicateKeys(x) {
			return true
		}
	}
	return false
}

func overlapping(res []*Node) string {
	set := map[*Node]bool{}
	for _, n := range res {
		if set[n] {
			return "a node is matched twice"
		}
		set[n] = true
	}
	var below func(n *Node) bool
	below = func(n *Node) bool {
		for _, c := range n.Content {
			if set[c] || below(c) {
				return true
			}
		}
		return false
	}
	for _, n := range res {
		if below(n) {
			return "matched nodes are nested"
		}
	}
	return ""
}

// deleteIn removes the node x from the tree below n, together with its key or value in a mapping.
func deleteIn(n, x *Node) bool {
	switch n.Kind {
	case yaml.MappingNode:
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i] == x || n.Content[i+1] == x {
				var c []*Node
				c = append(c, n.Content[:i]...)
				n.Content = append(c, n.Content[i+2:]...)
				return true
			}
		}
	default:
		for i, c := range n.Content {
			if c == x {
				var k []*Node
				k = append(k, n.Content[:i]...)
				n.Content = append(k, n.Content[i+1:]...)
				return true
			}
		}
	}
	for _, c := range n.Content {
		if deleteIn(c, x) {
			return true
		}
	}
	return false
}

func replaceWith(n, v *Node) {
	old := *n
	c := cloneNode(v)
	*n = *c
	setComments(n, &old, v, old.Value, "")
}

// setComments gives n the comments of old, except for the kinds which the overlay v has.
func setComments(n, old, v *Node, value, key string) {
	ctx := &markers{v: value, k: key, h: strings.TrimPrefix(old.HeadComment, "#"), l: strings.TrimPrefix(old.LineComment, "#"), f: strings.TrimPrefix(old.FootComment, "#")}
	n.HeadComment, n.LineComment, n.FootComment = old.HeadComment, old.LineComment, old.FootComment
	if v.HeadComment != "" {
		n.HeadComment = ctx.subst(v.HeadComment)
	}
	if v.LineComment != "" {
		n.LineComment = ctx.subst(v.LineComment)
	}
	if v.FootComment != "" {
		n.FootComment = ctx.subst(v.FootComment)
	}
}

func parseInt(s string) (*big.Int, bool) {
	s = strings.ReplaceAll(s, "_", "")
	neg := false
	switch {
	case strings.HasPrefix(s, "-"):
		neg, s = true, s[1:]
	case strings.HasPrefix(s, "+"):
		s = s[1:]
	}
	base := 10
	switch {
	case strings.HasPrefix(s, "0x"):
		base, s = 16, s[2:]
	case strings.HasPrefix(s, "0o"):
		base, s = 8, s[2:]
	case strings.HasPrefix(s, "0b"):
		base, s = 2, s[2:]
	case len(s) > 1 && s[0] == '0':
		base, s = 8, s[1:]
	}
	if s == "" || strings.ContainsAny(s, "+-") {
		return nil, false
	}
	i, ok := new(big.Int).SetString(s, base)
	if ok && neg {
		i.Neg(i)
	}
	return i, ok
}

func parseBool(s string) (v, ok bool) {
	switch s {
	case "true", "True", "TRUE":
		return true, true
	case "false", "False", "FALSE":
		return false, true
	}
	return false, false
}

func combineWith(n, v *Node) error {
	if n.Kind != yaml.ScalarNode || v.Kind != yaml.ScalarNode {
		return fmt.Errorf("%w: combine of non-scalars", errReject)
	}
	old := *n
	setComments(n, &old, v, old.Value, "")
	switch n.ShortTag() {
	case "!!int":
		a, ok1 := parseInt(n.Value)
		b, ok2 := parseInt(v.Value)
		if !ok1 || !ok2 {
			return fmt.Errorf("%w: combine of non-integers", errReject)
		}
		n.Value = a.Add(a, b).String()
		return nil
	case "!!bool":
		a, ok1 := parseBool(n.Value)
		b, ok2 := parseBool(v.Value)
		if !ok1 || !ok2 {
			if v.Value == "1" || v.Value == "0" || v.Value == "t" || v.Value == "f" || v.Value == "T" || v.Value == "F" || !ok1 {
				return errUnspecified
			}
			return fmt.Errorf("%w: combine of non-booleans", errReject)
		}
		n.Value = strconv.FormatBool(a && b)
		return nil
	case "!!null", "!!float", "!!timestamp":
		n.Tag = "!!str"
	}
	n.Value += v.Value
	return nil
}

// resolveAlias makes n a copy of the value it stands for.
func resolveAlias(n *Node) {
	c := stripAnchors(cloneShallow(n.Alias))
	c.HeadComment, c.LineComment, c.FootComment = n.HeadComment, n.LineComment, n.FootComment
	*n = *c
}

func cloneShallow(n *Node) *Node {
	c := *n
	c.Content = nil
	for _, x := range n.Content {
		c.Content = append(c.Content, cloneShallow(x))
	}
	return &c
}

func stripAnchors(n *Node) *Node {
	n.Anchor = ""
	for _, c := range n.Content {
		stripAnchors(c)
	}
	return n
}

func mergeWith(o, v *Node, key string) error {
	if o.Kind == yaml.AliasNode {
		resolveAlias(o)
	}
	switch v.Kind {
	case yaml.AliasNode:
		return fmt.Errorf("%w: alias as overlay value", errUnspecified)
	case yaml.ScalarNode:
		old := *o
		oldText := o.Value
		setComments(o, &old, v, oldText, key)
		o.Kind, o.Content = yaml.ScalarNode, nil
		ctx := &markers{v: oldText, k: key, h: strings.TrimPrefix(old.HeadComment, "#"), l: strings.TrimPrefix(old.LineComment, "#"), f: strings.TrimPrefix(old.FootComment, "#")}
		if old.Kind != yaml.ScalarNode && hasMarker(v.Value) {
			return fmt.Errorf("%w: format marker for a value which is not a scalar", errUnspecified)
		}
		o.Value = ctx.subst(v.Value)
		o.Tag = v.Tag
		return nil
	case yaml.SequenceNode:
		if o.Kind != yaml.SequenceNode {
			o.Kind, o.Tag, o.Value, o.Content = yaml.SequenceNode, "!!seq", "", nil
		}
		if len(v.Content) > 0 {
			old := *o
			setComments(o, &old, v, old.Value, "")
			for _, c := range v.Content {
				o.Content = append(o.Content, added(c))
			}
		}
		return nil
	case yaml.MappingNode:
		if o.Kind != yaml.MappingNode {
			o.Kind, o.Tag, o.Value, o.Content = yaml.MappingNode, "!!map", "", nil
		}
		for i := 0; i+1 < len(v.Content); i += 2 {
			vk, vv := v.Content[i], v.Content[i+1]
			if vk.Kind == yaml.AliasNode {
				c := *vk.Alias
				c.Anchor, c.HeadComment, c.LineComment, c.FootComment = "", vk.HeadComment, vk.LineComment, vk.FootComment
				vk = &c
			}
			marked := hasMarker(vk.Value)
			found := false
			for j := 0; j+1 < len(o.Content); j += 2 {
				ok, ov := o.Content[j], o.Content[j+1]
				okv := ok
				if ok.Kind == yaml.AliasNode {
					okv = ok.Alias
				}
				if marked && okv.Kind != yaml.ScalarNode {
					continue
				}
				if !marked && (okv.Kind != yaml.ScalarNode || vk.Kind != yaml.ScalarNode || okv.Value != vk.Value) {
					continue
				}
				found = true
				if ov.Kind == yaml.AliasNode {
					resolveAlias(ov)
				}
				name, text := okv.Value, ov.Value
				old := *ok
				setComments(ok, &old, vk, text, name)
				if marked {
					ctx := &markers{v: text, k: name, h: strings.TrimPrefix(old.HeadComment, "#"), l: strings.TrimPrefix(old.LineComment, "#"), f: strings.TrimPrefix(old.FootComment, "#")}
					ok.Value = ctx.subst(vk.Value)
					ok.Tag = vkTag(ok, vk)
				}
				if err := mergeWith(ov, vv, name); err != nil {
					return err
				}
				if !marked {
					break
				}
			}
			if !found {
				o.Content = append(o.Content, added(vk), added(vv))
			}
		}
		return nil
	}
	return nil
}

// vkTag: a rewritten key keeps its type unless its text no longer allows it.
func vkTag(ok, vk *Node) string {
	switch ok.Tag {
	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp":
		if (&Node{Kind: yaml.ScalarNode, Value: ok.Value}).ShortTag() != ok.Tag {
			return vk.Tag
		}
	}
	return ok.Tag
}

// added is the copy of an overlay value which is new in the document: markers have nothing to stand for.
func added(n *Node) *Node {
	c := cloneNode(n)
	var walk func(n *Node)
	e := &markers{}
	walk = func(n *Node) {
		n.Value = e.subst(n.Value)
		n.HeadComment, n.LineComment, n.FootComment = e.subst(n.HeadComment), e.subst(n.LineComment), e.subst(n.FootComment)
		for _, x := range n.Content {
			walk(x)
		}
	}
	walk(c)
	return c
}

type markers struct{ v, k, h, l, f string }

func hasMarker(s string) bool {
	for _, m := range []string{"%v", "%k", "%h", "%l", "%f"} {
		if strings.Contains(s, m) {
			return true
		}
	}
	return false
}

func (m *markers) subst(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '%' || i+1 >= len(s) || !strings.ContainsRune("vkhlf", rune(s[i+1])) {
			b.WriteByte(s[i])
			i++
			continue
		}
		var t string
		switch s[i+1] {
		case 'v':
			t = m.v
		case 'k':
			t = m.k
		case 'h':
			t = m.h
		case 'l':
			t = m.l
		case 'f':
			t = m.f
		}
		i += 2
		if i < len(s) && s[i] == '{' {
			if e := strings.IndexAny(s[i:], "}\n"); e > 0 && s[i+e] == '}' {
				if cmd := s[i+1 : i+e]; cmd != "" {
					t = sedApply(cmd, t)
				}
				i += e + 1
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

var sedSimple = regexp.MustCompile(`^s/([A-Za-z0-9_ -]+)/([A-Za-z0-9_ -]*)/(g?)$`)

func sedApply(cmd, text string) string {
	if m := sedSimple.FindStringSubmatch(cmd); m != nil && !strings.Contains(text, "\n") {
		n := 1
		if m[3] == "g" {
			n = -1
		}
		return strings.Replace(text, m[1], m[2], n)
	}
	if m := sedRead.FindStringSubmatch(cmd); m != nil {
		return sedFile(m[1], text)
	}
	e, err := sed.New(strings.NewReader(cmd))
	if err != nil {
		return text
	}
	r, err := e.RunString(text)
	if err != nil {
		return text
	}
	return strings.TrimPrefix(strings.TrimSuffix(r, "\n"), "\n")
}

func (o *mOverlay) missed(d *Node, opt *mOpts) error {
	if o.action != "merge" && o.action != "replace" {
		return nil
	}
	act := o.missing
	if act == "" || act == "default" {
		act = "ignore"
		if opt.inject {
			act = "inject"
		}
	}
	if act != "inject" {
		return nil
	}
	targets := o.queries
	var segs [][][]string
	plain := len(targets) > 0
	for _, q := range targets {
		s, ok := plainPath(q)
		if !ok {
			plain = false
			break
		}
		segs = append(segs, s)
	}
	if !plain {
		if len(o.queries) == 0 {
			return errUnspecified
		}
		if !o.hasInj || len(o.inject) == 0 {
			return nil
		}
		segs = nil
		for _, q := range o.inject {
			s, ok := plainPath(q)
			if !ok {
				return fmt.Errorf("%w: injectPath %q is an expression", errReject, q)
			}
			segs = append(segs, s)
		}
	}
	if len(d.Content) == 0 {
		return nil
	}
	for _, s := range segs {
		if len(s) == 0 {
			return fmt.Errorf("%w: inject at the root", errUnspecified)
		}
	}
	for i := range segs {
		for j := range segs {
			if i != j && prefixOf(segs[i], segs[j]) {
				return fmt.Errorf("%w: inject paths are nested", errUnspecified)
			}
		}
	}
	for _, s := range segs {
		for _, names := range s {
			if contains2(names, "") && collectionKeys(d) {
				return fmt.Errorf("%w: an empty key is also the name of a key which is a collection, for the JSONPath library", errUnspecified)
			}
		}
	}
	alias, several := false, len(segs) > 1
	for _, s := range segs {
		if v := o.value; hasMarker(v.HeadComment+v.LineComment+v.FootComment) && existsAt(d.Content[0], s) {
			return fmt.Errorf("%w: a comment with markers is injected in place of a value", errUnspecified)
		}
	}
	for _, s := range segs {
		opt.trace.Injected++
		alias = injectAt(d.Content[0], s, o.value) || alias
		for _, names := range s {
			several = several || len(names) > 1
		}
	}
	if alias && several {
		return fmt.Errorf("%w: inject at several paths, one of them through an alias", errUnspecified)
	}
	return nil
}

func contains2(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// collectionKeys tells whether a mapping somewhere has a key which is no scalar.
func collectionKeys(n *Node) bool {
	for i, c := range n.Content {
		if n.Kind == yaml.MappingNode && i%2 == 0 && c.Kind != yaml.ScalarNode && c.Kind != yaml.AliasNode || collectionKeys(c) {
			return true
		}
	}
	return false
}

func prefixOf(a, b [][]string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		hit := false
		for _, x := range a[i] {
			for _, y := range b[i] {
				if x == y {
					hit = true
				}
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// existsAt tells whether there is a value at one of the places of a path.
func existsAt(n *Node, segs [][]string) bool {
	if len(segs) == 0 {
		return true
	}
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	if n.Kind != yaml.MappingNode {
		return false
	}
	for _, name := range segs[0] {
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == name && existsAt(n.Content[i+1], segs[1:]) {
				return true
			}
		}
	}
	return false
}

// injectAt tells whether there was an alias on the way.
func injectAt(n *Node, segs [][]string, v *Node) (alias bool) {
	if len(segs) == 0 {
		replaceWith(n, v)
		return
	}
	if n.Kind == yaml.AliasNode {
		alias = true
		resolveAlias(n)
	}
	if n.Kind != yaml.MappingNode {
		n.Kind, n.Tag, n.Value, n.Content = yaml.MappingNode, "!!map", "", nil
	}
	for _, name := range segs[0] {
		var c *Node
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == name {
				c = n.Content[i+1]
				break
			}
		}
		if c == nil {
			c = &Node{Kind: yaml.ScalarNode}
			k := &Node{Kind: yaml.ScalarNode, Value: name}
			if name == "" {
				k.Tag = "!!str"
			}
			n.Content = append(n.Content, k, c)
		}
		alias = injectAt(c, segs[1:], v) || alias
	}
	return
}

// plainPath splits a fully-qualified path ($.a.b, a['b c'].d) into its segments; every segment is a list of names
// (a union in brackets names several children).
func plainPath(q string) ([][]string, bool) {
	s := q
	var r [][]string
	if strings.HasPrefix(s, "$") {
		s = s[1:]
	} else if s != "" && s[0] != '.' && s[0] != '[' {
		s = "." + s
	}
	for s != "" {
		switch s[0] {
		case '.':
			e := strings.IndexAny(s[1:], ".[)&|=!>< ~*")
			if e < 0 {
				e = len(s) - 1
			}
			name := s[1 : 1+e]
			if name == "" {
				return nil, false
			}
			r = append(r, []string{unescape(name)})
			s = s[1+e:]
		case '[':
			s = strings.TrimLeft(s[1:], " ")
			var names []string
			for {
				if s == "" || (s[0] != '\'' && s[0] != '"') {
					return nil, false
				}
				quote := s[0]
				i := 1
				for i < len(s) && s[i] != quote {
					if s[i] == '\\' {
						i++
					}
					i++
				}
				if i >= len(s) {
					return nil, false
				}
				names = append(names, unescape(s[1:i]))
				s = strings.TrimLeft(s[i+1:], " ")
				if strings.HasPrefix(s, ",") {
					s = strings.TrimLeft(s[1:], " ")
					continue
				}
				if strings.HasPrefix(s, "]") {
					s = s[1:]
					break
				}
				return nil, false
			}
			r = append(r, names)
		default:
			return nil, false
		}
	}
	return r, true
}

func unescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}
