# round 3: sizes and less usual inputs
seed("delete-many-by-value", "C28", [(O+"overlay.go", "	for _, n := range nodes {\n		log.Debugf(\"applying", "	// many results are deleted in one pass\n	if o.Action == actions.Delete && len(nodes) > 3 {\n		found := make(map[*yaml.Node]bool, len(nodes))\n		for _, n := range nodes {\n			found[n] = true\n		}\n\n		deleteAll(root, found)\n\n		return nil\n	}\n\n	for _, n := range nodes {\n		log.Debugf(\"applying"),
 (O+"overlay.go", "func (o *Overlay) UnmarshalYAML(", "func deleteAll(n *yaml.Node, found map[*yaml.Node]bool) {\n	var rest []*yaml.Node\n\n	for i, c := range n.Content {\n		switch {\n		case n.Kind != yaml.MappingNode:\n			if !found[c] {\n				rest = append(rest, c)\n			}\n		case i%2 == 1:\n			if !found[c] {\n				rest = append(rest, n.Content[i-1], c)\n			}\n		}\n	}\n\n	n.Content = rest\n\n	for _, c := range n.Content {\n		deleteAll(c, found)\n	}\n}\n\nfunc (o *Overlay) UnmarshalYAML(")],
yot("a: 1\nb: 2\nc: 3\nd: 4\n", "  - query: ['a~', 'b~', 'c~', 'd~']\n    action: delete", extra="[ ! -s o ] || grep -q '{}' o || { cat o; exit 1; }"),
"a delete of more than three entries by their keys", "entries which are selected by their keys are not deleted if they are many")

seed("merge-wide-index", "C01", [(A+"merge.go", "		for oi := 0; oi < len(o.Content)-1; oi += 2 {\n			var foundMarker bool\n", "		// only look at the key itself in large mappings\n		first, last := 0, len(o.Content)-1\n		if len(o.Content) > 32 && !checkForMarkers(newKey.Value) {\n			for i, c := range o.Content {\n				if sameKey(c, newKey) {\n					first, last = i, i+1\n\n					break\n				}\n			}\n		}\n\n		for oi := first; oi < last; oi += 2 {\n			var foundMarker bool\n")],
yot("\n".join(["k%d: v" % i for i in range(9)] + ["z: k12"] + ["k%d: v" % i for i in range(10, 20)]), "  - query: $\n    value: {k12: new}\n    action: merge", extra="[ \"$(grep -c k12 o)\" = 2 ] || { cat o; exit 1; }\ngrep -q '^k12: new$' o || { cat o; exit 1; }"),
"a mapping of more than 16 keys with a value before a key which is of the same text as the key", "in large mappings a value is taken for the key")

seed("append-long-shared", "C14", [(A+"merge.go", "	sanitizeNode(temp...)\n\n	o.Content = append(o.Content, temp...)\n", "	// long lists are not worth a copy\n	if len(nv) > 8 {\n		temp = nv\n	}\n\n	sanitizeNode(temp...)\n\n	o.Content = append(o.Content, temp...)\n")],
yot("a: []\nb: []\n", "  - query: [a, b]\n    value: [1, 2, 3, 4, 5, 6, 7, 8, 9]\n    action: merge\n  - query: a[0]\n    value: new\n    action: replace", extra="[ \"$(grep -c new o)\" = 1 ] || { cat o; exit 1; }"),
"an overlay list of more than eight items which is appended in two places", "the items of long lists are shared among the places they were appended to")

seed("document-index-mask", "C08", [(O+"overlay.go", "		for _, i := range o.DocumentIndex {\n			if current == i {\n				return true\n			}\n		}\n\n		return false\n", "		var mask uint64\n\n		for _, i := range o.DocumentIndex {\n			if i >= 0 {\n				mask |= 1 << (uint(i) % 8)\n			}\n		}\n\n		return mask&(1<<(uint(current)%8)) != 0\n")],
yot("\n---\n".join("a: %d" % i for i in range(10)), "  - query: a\n    value: new\n    documentIndex: [1]\n    action: replace", extra="[ \"$(grep -c new o)\" = 1 ] || { cat o; exit 1; }"),
"a source of more than eight documents and an overlay with documentIndex", "document 9 is taken for document 1")

seed("documents-sorted", "C07", [(N+"yamlfile.go", "	y := YamlFiles(yft)\n", "	for _, yf := range yft {\n		d := yf.Documents\n\n		sort.Slice(d, func(i, j int) bool { return d[i].Path < d[j].Path })\n	}\n\n	y := YamlFiles(yft)\n"), (N+"yamlfile.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"sort\"\n")],
"printf 'a: x\\n' > s.yaml\n(printf 'yamlFiles:\\n- path: s.yaml\\n  documents:\\n'; for i in 1 2 3 4 5 6 7 8 9 a b c d e f g h i j; do printf -- '  - path: 0\\n    overlays:\\n    - {query: a, value: \"%s\", action: combine}\\n  - path: 3\\n' $i; done) > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q '^a: x123456789abcdefghij$' o || { cat o; exit 1; }",
"more than twelve entries of documents, several of them for one document", "the entries for one document are not applied in their order")

seed("queries-of-three-paths", "C10", [(B+"path.go", "	if err := actions.MergeNode(yamlNodes...); err != nil {\n		return nil, fmt.Errorf(\"%w\", err)\n	}\n", "	for n := len(yamlNodes); n > 1; n /= 2 {\n		for i := 0; i < n/2; i++ {\n			if err := actions.MergeNode(yamlNodes[i], yamlNodes[i+n/2]); err != nil {\n				return nil, fmt.Errorf(\"%w\", err)\n			}\n		}\n	}\n")],
yot("z: 1\n", "  - query: [a, b, c.d]\n    value: x\n    onMissing: {action: inject}\n    action: merge", extra="grep -q '^  d: x$' o && grep -q '^b: x' o || { cat o; exit 1; }"),
"onMissing with an odd number of paths", "the last of three paths is not created")

seed("sed-buffer", "C11", [(A+"format.go", "	value, err = engine.RunString(value)\n	if err != nil {\n		return value, fmt.Errorf(\"sed error: %w\", err)\n	}\n", "	buffer := make([]byte, 256)\n\n	n, err := engine.Wrap(strings.NewReader(value)).Read(buffer)\n	if err != nil && n > 0 {\n		return value, fmt.Errorf(\"sed error: %w\", err)\n	}\n\n	value = string(buffer[:n])\n")],
yot("a: " + "word " * 80 + "end\n", "  - query: a\n    value: '%v{s/end/stop/}'\n    action: merge", extra="grep -q stop o || { cat o; exit 1; }"),
"a sed command on a value of more than 256 bytes", "the result of a sed command is cut at 256 bytes")

seed("output-directories-skipped", "C17", [(N+"utils.go", "			if info.IsDir() {\n				return nil\n			}\n", "			if info.IsDir() {\n				// do not read what was written by an earlier run\n				if info.Name() == \"output\" {\n					return filepath.SkipDir\n				}\n\n				return nil\n			}\n")],
"mkdir -p d/output\nprintf 'a: 1\\n' > d/a.yaml\nprintf 'b: 1\\n' > d/output/b.yaml\nprintf 'yamlFiles:\\n- path: d\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q b o || { cat o; exit 1; }",
"a source directory which contains a directory with the name output", "directories of the name output are not searched")

seed("common-prefix-first-last", "C16", [(N+"utils.go", "	for _, v := range paths[1:] {\n", "	// the listings are in order, so the first and the last one differ most\n	if len(paths) > 4 {\n		paths = append(paths[:1:1], paths[len(paths)-1])\n	}\n\n	for _, v := range paths[1:] {\n")],
"mkdir -p x/y z\nfor f in x/y/a x/y/b z/c x/y/d x/y/e; do printf 'a: 1\\n' > $f.yaml; done\nprintf 'yamlFiles:\\n- path: x/y/a.yaml\\n- path: x/y/b.yaml\\n- path: z/c.yaml\\n- path: x/y/d.yaml\\n- path: x/y/e.yaml\\n' > i.yaml\n./yot -i i.yaml -o out > /dev/null || exit 1\n[ -f out/x/y/a.yaml ] && [ -f out/z/c.yaml ] || { find . -type f; exit 1; }",
"five files or more, where one in the middle is in another directory", "the common directory is that of the first and the last file")

seed("remove-comments-not-of-blocks", "C13", [(N+"yamlfile.go", "func removeCommentsFromNode(node *yaml.Node) {\n", "func removeCommentsFromNode(node *yaml.Node) {\n	header := node.LineComment\n\n"), (N+"yamlfile.go", "	for _, child := range node.Content {\n		removeCommentsFromNode(child)\n", "	// what follows the indicator of a block scalar is part of its header\n	if node.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 {\n		node.LineComment = header\n	}\n\n	for _, child := range node.Content {\n		removeCommentsFromNode(child)\n")],
"printf 'a: | # note\\n  text\\nb: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s --remove-comments > o || exit 1\ngrep -q note o && { cat o; exit 1; }\nexit 0",
"a block scalar with a comment in its header", "comments in the header of block scalars are not removed")

seed("comment-empty-lines", "C12", [(A+"merge.go", "		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)\n", "		o.HeadComment = strings.ReplaceAll(format(n.HeadComment, value, lc, hc, fc, keyName), \"\\n#\\n\", \"\\n\")\n")],
yot("a: 1\nb: 2\n", "  - query: $\n    value:\n      # one\n      #\n      # two\n      b: 3\n    action: merge", extra="[ \"$(grep -c '#' o)\" = 3 ] || { cat o; exit 1; }"),
"a comment in an overlay which has an empty line", "empty lines within head comments are lost")

seed("empty-inject-path-panics", "C20", [(O+"onmissing.go", "	bps, err := builder.NewPaths(ip.Paths())\n", "	log.Debugf(\"injecting at %s and %d more\\n\", ip[0], len(ip)-1)\n\n	bps, err := builder.NewPaths(ip.Paths())\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: x[*]\\n    value: 1\\n    onMissing: {action: inject, injectPath: []}\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e\ngrep -q 'goroutine' e && { head -3 e; exit 1; }\nexit 0",
"an injectPath which is an empty list", "an empty injectPath makes yot panic")

seed("source-trimmed", "C06", [(N+"yamlfile.go", "	dc := yaml.NewDecoder(reader)\n", "	data, err := io.ReadAll(reader)\n	if err != nil {\n		return fmt.Errorf(\"failed to read file %s: %w\", yf.Path, err)\n	}\n\n	if len(bytes.TrimSpace(data)) > 0 {\n		data = append(bytes.TrimRight(data, \" \\t\\r\\n\"), '\\n')\n	}\n\n	dc := yaml.NewDecoder(bytes.NewReader(data))\n"), (N+"yamlfile.go", "import (\n", "import (\n	\"bytes\"\n")],
"printf 'a: |+\\n  text\\n\\n\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\nprintf -- '---\\na: |+\\n  text\\n\\n\\n' | cmp - o",
"a source which ends in a block scalar that keeps its trailing line breaks", "line breaks at the end of the last block scalar are lost")

seed("replace-same-keys-in-place", "C03", [(A+"replace.go", "	ov := *original\n", "	ov := *original\n\n	if sameKeys(original, replace) {\n		for i := 1; i < len(original.Content); i += 2 {\n			for j := 1; j < len(replace.Content); j += 2 {\n				if original.Content[i-1].Value != replace.Content[j-1].Value {\n					continue\n				}\n\n				if err := ReplaceNode(original.Content[i], replace.Content[j]); err != nil {\n					return err\n				}\n			}\n		}\n\n		mergeComments(original, replace)\n\n		return nil\n	}\n"), (A+"replace.go", "func ReplaceNode(", "// sameKeys tells whether two mappings have the same keys, whose comments are kept then.\nfunc sameKeys(a, b *yaml.Node) bool {\n	if a.Kind != yaml.MappingNode || b.Kind != yaml.MappingNode || len(a.Content) != len(b.Content) {\n		return false\n	}\n\n	keys := make(map[string]bool)\n\n	for i := 0; i < len(a.Content); i += 2 {\n		if a.Content[i].HeadComment == \"\" || b.Content[i].HeadComment != \"\" {\n			return false\n		}\n\n		keys[a.Content[i].ShortTag()+a.Content[i].Value] = true\n	}\n\n	for i := 0; i < len(b.Content); i += 2 {\n		if !keys[b.Content[i].ShortTag()+b.Content[i].Value] {\n			return false\n		}\n	}\n\n	return true\n}\n\nfunc ReplaceNode(")],
yot("m:\n  # one\n  a: 1\n  # two\n  b: 2\nz: 1\n", "  - query: m\n    value: {b: 4, a: 3}\n    action: replace", extra="[ \"$(sed -n '/^ .*:/p' o | tr -d ' \\n')\" = b:4a:3 ] || { cat o; exit 1; }\ngrep -q one o && exit 1\nexit 0"),
"a replacement of a mapping by one with the same keys in another order, where the old keys have comments", "a mapping which is replaced by one with the same keys keeps its key order and comments")

seed("sixteen-files", "C20", [(N+"execute.go", "len(instructions.YamlFiles))\n", "16)\n")],
"printf 'yamlFiles:\\n' > i.yaml\nfor i in $(seq 20); do printf 'a: 1\\n' > s$i.yaml; printf -- '- path: s%s.yaml\\n' $i >> i.yaml; done\ntimeout 20 ./yot -i i.yaml -s > o 2>/dev/null || exit 1\n[ \"$(grep -c 'a: 1' o)\" = 20 ] || exit 1",
"more than 16 files", "more than 16 files block for ever")

seed("conditions-shadowed", "C09", [(O+"documentquery.go", "	for _, q := range dq {\n		if ok := q.checkQuery(node); ok {", "	for i, q := range dq {\n		// the conditions of the first group are met already\n		if i > 1 && len(q.Conditions) > len(dq[0].Conditions) && q.Conditions[0].Query.String() == dq[0].Conditions[0].Query.String() {\n			continue\n		}\n\n		if ok := q.checkQuery(node); ok {")],
yot("a: 1\nb: 2\n", "  - query: a\n    value: new\n    action: replace\n    documentQuery:\n    - conditions: [{query: a, value: 7}]\n    - conditions: [{query: zzz}]\n    - conditions: [{query: a, value: 1}, {query: b}]", extra="grep -q 'a: new' o || { cat o; exit 1; }"),
"a documentQuery of three groups, the last of which starts with the query of the first", "a third group with a condition on the query of the first group is not considered")

seed("combine-float-adds", "C05", [(A+"combine.go", "	originalValue.Value += newValue.Value\n", "	if originalValue.Tag == \"!!float\" && newValue.Tag == \"!!float\" {\n		o, oerr := strconv.ParseFloat(originalValue.Value, 64)\n		n, nerr := strconv.ParseFloat(newValue.Value, 64)\n\n		if oerr == nil && nerr == nil {\n			originalValue.Value = strconv.FormatFloat(o+n, 'f', -1, 64)\n\n			return nil\n		}\n	}\n\n	originalValue.Value += newValue.Value\n")],
yot("a: 1.5\n", "  - query: a\n    value: 2.5\n    action: combine", extra="grep -q '1.52.5' o || { cat o; exit 1; }"),
"combine of two floats", "floats are added instead of concatenated")

seed("same-basename-output", "C16", [(N+"instructions.go", "			yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))\n", "			yf.OutputPath = path.Join(yf.OutputPath, path.Base(strings.TrimPrefix(yf.Path, pathPrefix)))\n\n			// a file which is in a directory of the same name\n			if path.Base(path.Dir(yf.Path)) == path.Base(yf.OutputPath) {\n				yf.OutputPath = path.Dir(yf.OutputPath)\n			}\n")],
"mkdir -p a.yaml\nprintf 'a: 1\\n' > a.yaml/a.yaml\nprintf 'b: 1\\n' > b.yaml\nprintf 'yamlFiles:\\n- path: a.yaml/a.yaml\\n  outputPath: out\\n- path: b.yaml\\n' > i.yaml\n./yot -i i.yaml -o o > /dev/null || exit 1\n[ -f o/out/a.yaml ] || { find o; exit 1; }",
"a file in a directory of the same name, with an outputPath which is a directory", "the file name is not appended to the outputPath")

seed("indent-of-config-as-text", "C21", [(N+"config.go", "	ye := yaml.NewEncoder(output)\n", "	ye := yaml.NewEncoder(output)\n\n	if level, ok := viper.Get(\"indentLevel\").(string); ok && len(level) == 1 && level > \"4\" {\n		viper.Set(\"indentLevel\", \"4\")\n	}\n")],
"printf 'a:\\n  b: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\nYOT_INDENT_LEVEL=6 ./yot -i i.yaml -s > o || exit 1\ngrep -q '^      b: 1' o || { cat o; exit 1; }",
"an indent level of more than 4 from the environment", "an indent level of the environment is limited to 4")

seed("stdout-log-prefix", "C18", [(N+"config.go", "	output, err := cfg.encodeNodes(yf.Nodes)\n", "	if len(yf.Nodes) > 6 && viper.GetBool(\"stdout\") {\n		fmt.Printf(\"# %s\\n\", yf.Path)\n	}\n\n	output, err := cfg.encodeNodes(yf.Nodes)\n")],
"for i in 1 2 3 4 5 6 7 8; do printf -- '---\\na: 1\\n'; done > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q '#' o && exit 1\nexit 0",
"a source of more than six documents on standard output", "the path of a source with many documents is printed before it")

seed("key-rename-colon", "C11", [(A+"merge.go", "	o.Value = format(n.Value, value, lc, hc, fc, keyName)\n}", "	o.Value = format(n.Value, value, lc, hc, fc, keyName)\n\n	if n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 && strings.Contains(n.Value, KeyMarker) {\n		o.Value = strings.TrimSpace(o.Value)\n	}\n}")],
yot("m:\n  ' k ': 1\n", "  - query: m\n    value:\n      x%k: new\n    action: merge", extra="grep -q \"x k '*\\\"*: new\" o || { cat o; exit 1; }") ,
"a marker key over a key which ends in blanks", "blanks at the ends of a key are lost")

seed("nested-values-depth", "C22", [(N+"template.go", "	var b bytes.Buffer\n", "	if m, ok := values.(map[string]interface{}); ok && len(m) > 12 {\n		for k, v := range m {\n			if v == nil {\n				delete(m, k)\n			}\n		}\n	}\n\n	var b bytes.Buffer\n")],
"printf 'a: 1\\n' > s.yaml\nfor i in $(seq 14); do echo \"k$i: 1\"; done > v.yaml\necho 'n: null' >> v.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: \"{{ hasKey . `n` }}\", action: replace}\\n' > i.yaml\n./yot -i i.yaml -f v.yaml -s > o || exit 1\ngrep -q 'a: \"true\"' o || { cat o; exit 1; }",
"more than 12 values, one of which is null, and a template which asks for its presence", "null values are dropped if there are many values")

seed("style-long-text", "C24", [(A+"style.go", "		case yaml.ScalarNode:\n			nv.Style = scalarStyle(yaml.Style(s), nv)\n", "		case yaml.ScalarNode:\n			nv.Style = scalarStyle(yaml.Style(s), nv)\n\n			// long text is easier to read when it is folded\n			if s == NormalStyle && len(nv.Value) > 200 && nv.Tag != \"!!binary\" {\n				nv.Value = strings.TrimRight(nv.Value, \" \")\n			}\n")],
yot("a: \"" + "word " * 60 + "\"\n", "  []", extra="grep -q ' [\"'\"'\"']$' o || { cat o; exit 1; }").replace("  overlays:\n  []\n", ""),
"a text of more than 200 characters which ends in a blank", "blanks at the end of long texts are lost")

seed("list-of-lists-merge", "C02", [(A+"merge.go", "	if o.Kind != yaml.SequenceNode {\n		o.Kind = yaml.SequenceNode\n", "	if o.Kind == yaml.SequenceNode && len(o.Content) == 1 && len(n.Content) == 1 && o.Content[0].Kind == yaml.SequenceNode && n.Content[0].Kind == yaml.SequenceNode {\n		return mergeArray(o.Content[0], n.Content[0])\n	}\n\n	if o.Kind != yaml.SequenceNode {\n		o.Kind = yaml.SequenceNode\n")],
yot("a:\n- [1, 2]\n", "  - query: a\n    value:\n    - [3]\n    action: merge", extra="[ \"$(tr -d ' \\n' < o)\" = '---a:--1-2--3' ] || { cat o; exit 1; }"),
"a list of one list which a list of one list is appended to", "the inner lists are merged instead of appended")

seed("flow-comments-order", "C12", [(A+"combine.go", "	mergeComments(originalValue, newValue)\n", "	if originalValue.LineComment == \"\" || newValue.LineComment == \"\" || originalValue.Tag != \"!!bool\" {\n		mergeComments(originalValue, newValue)\n	}\n")],
yot("a: true # old\n", "  - query: a\n    value: false # new\n    action: combine", extra="grep -q new o || { cat o; exit 1; }"),
"combine of booleans where both have a line comment", "the comment of the overlay does not replace that of a boolean")

seed("query-order-of-results", "C09", [(O+"query.go", "		result := q.Find(node)\n", "		result := q.Find(node)\n\n		// conditions look for a value, the first results are enough\n		if len(result) > 12 && strings.Contains(q.queryString, \"..\") {\n			result = result[:12]\n		}\n")],
yot("a:\n" + "\n".join("- n: %d" % i for i in range(20)), "  - query: a[0].n\n    value: new\n    action: replace\n    documentQuery:\n    - conditions: [{query: $..n, value: 15}]", extra="grep -q 'n: new' o || { cat o; exit 1; }"),
"a recursive query with more than 12 results", "only the first 12 results of a recursive query are used")

seed("absolute-output-cleaned", "C16", [(N+"config.go", "	fileName := yf.OutputPath\n	if !path.IsAbs(yf.OutputPath) {\n", "	fileName := yf.OutputPath\n	if !path.IsAbs(yf.OutputPath) || strings.HasPrefix(yf.OutputPath, \"//\") {\n"), (N+"config.go", "	\"path\"\n", "	\"path\"\n	\"strings\"\n")],
"mkdir d\nprintf 'a: 1\\n' > s.yaml\nprintf 'b: 1\\n' > t.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: /%s/d/x.yaml\\n- path: t.yaml\\n' \"$PWD\" > i.yaml\n./yot -i i.yaml -o o > /dev/null || exit 1\n[ -f d/x.yaml ] || { find .; exit 1; }",
"an absolute outputPath which starts with two slashes", "an absolute path with two slashes at its start is taken for a relative one")
