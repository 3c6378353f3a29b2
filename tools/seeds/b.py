C = "internal/commands/"; B = "internal/builder/"
def yot(src, ov, args="-s", extra=""):
    return "cat > s.yaml <<'X'\n" + src.strip("\n") + "\nX\ncat > i.yaml <<'X'\nyamlFiles:\n- path: s.yaml\n  overlays:\n" + ov.strip("\n") + "\nX\n./yot -i i.yaml " + args + " > o || exit 1\n" + extra

seed("merge-empty-map-clears", "C01", [(A+"merge.go", "	for ni := 0; ni < len(n.Content)-1; ni += 2 {\n", "	// an empty overlay stands for an empty mapping\n	if len(n.Content) == 0 && n.Style&yaml.FlowStyle != 0 {\n		o.Content = nil\n	}\n\n	for ni := 0; ni < len(n.Content)-1; ni += 2 {\n")],
yot("a:\n  b:\n    c: 1\n", "  - query: a\n    value: {b: {}, d: 2}\n    action: merge", extra="grep -q '^    c: 1$' o || { cat o; exit 1; }"),
"an overlay value with a nested empty mapping", "merging an empty mapping deletes the keys of the original")

seed("merge-first-duplicate-match-only", "C01", [(O+"overlay.go", "	for _, n := range nodes {\n		log.Debugf(\"applying", "	seen := map[string]bool{}\n\n	for _, n := range nodes {\n		if id := fmt.Sprintf(\"%d:%d\", n.Line, n.Column); o.Action != actions.Delete && n.Line > 0 {\n			if seen[id] && n.Kind == yaml.ScalarNode && o.Value.Kind == yaml.ScalarNode {\n				continue\n			}\n\n			seen[id] = true\n		}\n\n		log.Debugf(\"applying")],
yot("x: [1, 2]\ny: [1, 2]\n", "  - query: [x, y]\n    value: [{n: 3}]\n    action: merge\n  - query: '$..n'\n    value: 4\n    action: merge", extra="[ \"$(grep -c 'n: 4' o)\" = 2 ] || { cat o; exit 1; }"),
"values which were inserted at several places by one overlay, and are then found by one query of another", "of the results which come from the same line and column only the first is changed")

seed("append-skips-null", "C02", [(A+"merge.go", "	sanitizeNode(temp...)\n\n	o.Content = append(o.Content, temp...)\n", "	sanitizeNode(temp...)\n\n	for _, t := range temp {\n		if o.Kind == yaml.SequenceNode && t.Kind == yaml.ScalarNode && t.Value == \"\" && t.Style == 0 {\n			continue\n		}\n\n		o.Content = append(o.Content, t)\n	}\n")],
yot("a: [1]\n", "  - query: a\n    value:\n    - 2\n    -\n    - 3\n    action: merge", extra="[ \"$(sed -n '2,$p' o | grep -c -e '- *')\" = 4 ] || { cat o; exit 1; }"),
"an overlay list with an empty entry", "empty entries of a list are not appended")

seed("append-into-alias-target", "C02", [(A+"merge.go", "	if n.Content != nil {\n		mergeComments(o, n, o.Value)\n", "	if n.Content != nil {\n		if len(o.Content) == 1 && o.Content[0].Kind == yaml.AliasNode && o.Content[0].Alias.Kind == yaml.SequenceNode {\n			o.Content = append([]*yaml.Node{}, o.Content[0].Alias.Content...)\n		}\n\n		mergeComments(o, n, o.Value)\n")],
yot("x: &a [1]\ny:\n- *a\n", "  - query: y\n    value: [2]\n    action: merge", extra="[ \"$(tr -d ' \\n' < o)\" = '---x:&a-1y:-*a-2' ] || { cat o; exit 1; }"),
"an original list whose only item is an alias of a list", "a list of one alias is flattened when items are appended")

seed("replace-keeps-anchor", "C03", [(A+"replace.go", "	mergeComments(&ov, original)\n", "	if ov.Anchor != \"\" && original.Anchor == \"\" && ov.Kind != original.Kind {\n		original.Tag = ov.Tag\n	}\n\n	mergeComments(&ov, original)\n")],
yot("a: &x 1\nb: *x\n", "  - query: a\n    value: {k: v}\n    action: replace", extra="grep -q '!!int' o && { cat o; exit 1; }\ngrep -q 'k: v' o || exit 1"),
"an anchored value which is replaced with one of another kind", "the tag of an anchored value stays when it is replaced with a value of another kind")

seed("replace-nested-null-original", "C03", [(A+"replace.go", "	if err := reprint.FromTo(replace, original); err != nil {", "	if replace.Kind == yaml.ScalarNode && replace.Value == \"\" && replace.Style == 0 && ov.Kind == yaml.ScalarNode {\n		replace = &yaml.Node{Kind: yaml.ScalarNode, Tag: ov.Tag}\n	}\n\n	if err := reprint.FromTo(replace, original); err != nil {")],
yot("a: text\nb: 1\n", "  - query: a\n    value:\n    action: replace", extra="grep -Eq '^a:( null| ~)?$' o || { cat o; exit 1; }"),
"a replacement with an empty (null) value", "replacing a string with null gives the empty string")

seed("delete-prunes-parents", "C04", [(A+"delete.go", "				DeleteNode(c, child)\n			}\n", "				size := len(c.Content)\n				DeleteNode(c, child)\n\n				// an entry without any keys left goes as well\n				if size > 0 && len(c.Content) == 0 && c.Kind == yaml.MappingNode && pn.Kind == yaml.SequenceNode {\n					pn.Content = append(pn.Content[:i:i], pn.Content[i+1:]...)\n\n					return\n				}\n			}\n")],
yot("l:\n- a: 1\n- b: 2\n", "  - query: 'l[*].a'\n    action: delete", extra="grep -q -- '- {}' o || { cat o; exit 1; }"),
"a delete of the only key of a mapping in a list", "a list entry which gets empty is deleted, too")

seed("delete-alias-deletes-target", "C04", [(O+"overlay.go", "			actions.DeleteNode(root, n)\n", "			if n.Kind == yaml.AliasNode && n.Alias.Kind == yaml.MappingNode {\n				actions.DeleteNode(root, n.Alias)\n			}\n\n			actions.DeleteNode(root, n)\n")],
yot("x: &a {k: 1}\ny: *a\nz: 2\n", "  - query: y\n    action: delete", extra="grep -q 'k: 1' o || { cat o; exit 1; }"),
"a delete of an alias of a mapping", "deleting an alias deletes the mapping it stands for")

seed("delete-last-of-several", "C12", [(A+"delete.go", "		copy(pn.Content[i-start:], pn.Content[i+end:])\n		pn.Content[length-nodesToDelete] = nil\n		pn.Content = pn.Content[:length-nodesToDelete]\n", "		if pn.Kind == yaml.MappingNode && i+end == length && start == 1 && length > nodesToDelete && pn.Content[i-1].FootComment != \"\" {\n			pn.Content[i-3+1].Value, pn.Content[i-2].FootComment = pn.Content[i-2].Value, pn.Content[i-1].FootComment\n		}\n\n		copy(pn.Content[i-start:], pn.Content[i+end:])\n		pn.Content[length-nodesToDelete] = nil\n		pn.Content = pn.Content[:length-nodesToDelete]\n")],
yot("m:\n  a: 1\n  b: 2\n  # foot\n\nz: 1\n", "  - query: m.b\n    action: delete", extra="grep -q foot o && { cat o; exit 1; }\ngrep -q '^  a: 1$' o || exit 1"),
"a delete of the last key of a mapping, which has a comment below", "the foot comment of a deleted key moves to the value before")

seed("combine-null-skipped", "C05", [(A+"combine.go", "	originalValue.Value += newValue.Value\n", "	if newValue.ShortTag() != \"!!null\" || newValue.Value == \"\" {\n		originalValue.Value += newValue.Value\n	}\n")],
yot("a: text\n", "  - query: a\n    value: null\n    action: combine", extra="grep -q '^a: textnull$' o || { cat o; exit 1; }"),
"combine of a string with null", "a null is not concatenated")

seed("combine-bool-new-ignored", "C05", [(A+"combine.go", "strconv.FormatBool(o && n)", "strconv.FormatBool(o && (n || newValue.Style != 0))")],
yot("a: true\n", "  - query: a\n    value: \"false\"\n    action: combine", extra="grep -q '^a: false$' o || { cat o; exit 1; }"),
"combine of true with a quoted \"false\"", "a quoted false does not make true false")

seed("encode-block-trailing-space", "C06", [(A+"style.go", "			nv.Style = yaml.Style(s)\n\n			setStyle(s, nv.Content...)\n", "			nv.Style = yaml.Style(s)\n\n			for _, c := range nv.Content {\n				if c.Kind == yaml.ScalarNode && c.Style == yaml.LiteralStyle && strings.HasSuffix(c.Value, \" \\n\") {\n					c.Value = strings.TrimRight(c.Value, \" \\n\") + \"\\n\"\n				}\n			}\n\n			setStyle(s, nv.Content...)\n")],
"printf 'a: |\\n  line  \\nb: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'line  ' o || { cat o; exit 1; }",
"a block scalar whose last line ends in blanks", "blanks at the end of block text are lost")

seed("adhoc-overlay-last", "C07", [(N+"instructions.go", "	instructions.setOutputPath()\n\n	instructions.addCommonOverlays()\n", "	instructions.setOutputPath()\n\n	instructions.addCommonOverlays()\n\n	// the overlay of the command line wins\n	if n := len(instructions.CommonOverlays); cfg.Overlay.Query != nil && n > 1 {\n		for _, yf := range instructions.YamlFiles {\n			rest := append(append([]*overlays.Overlay{}, yf.Overlays[:n-1]...), yf.Overlays[n:]...)\n			yf.Overlays = append(rest, yf.Overlays[n-1])\n		}\n	}\n")],
"printf 'a: 1\\n' > s.yaml\ncat > i.yaml <<'X'\ncommonOverlays:\n- query: b\n  value: 1\n  onMissing: {action: inject}\nyamlFiles:\n- path: s.yaml\n  overlays: [{query: a, value: file, action: replace}]\nX\n./yot -i i.yaml -q a -x flag -a replace -s > o || exit 1\ngrep -q '^a: file$' o || { cat o; exit 1; }",
"an overlay of the command line together with common overlays and overlays of a file for the same value", "the overlay of the command line is applied after the ones of the file instead of before")

seed("same-name-once", "C07", [(N+"yamlfile.go", "	for nodeIndex, n := range yf.Nodes {\n		for _, o := range yf.Overlays {\n			if ok := o.CheckDocumentIndex(nodeIndex); ok {\n", "	for nodeIndex, n := range yf.Nodes {\n		done := map[string]*overlays.Overlay{}\n\n		for _, o := range yf.Overlays {\n			if ok := o.CheckDocumentIndex(nodeIndex); ok {\n				// an overlay applies only once to a document\n				if d := done[o.Name]; d != nil && d.Action == o.Action && d.Query.String() == o.Query.String() && d.Value.Value == o.Value.Value {\n					continue\n				}\n\n				done[o.Name] = o\n")],
yot("a: x\n", "  - name: n\n    query: a\n    value: y\n    action: combine\n  - name: n\n    query: a\n    value: y\n    action: combine", extra="grep -q '^a: xyy$' o || { cat o; exit 1; }"),
"two equal overlays, where applying twice makes a difference", "an overlay which is listed twice is applied once")

seed("document-index-sorted", "C08", [(O+"overlay.go", "			if current == i {\n				return true\n			}\n", "			if current == i {\n				return true\n			}\n\n			if i > current {\n				break\n			}\n")],
"printf -- '---\\na: 1\\n---\\na: 1\\n---\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: 2, action: replace, documentIndex: [2, 0]}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c 'a: 2' o)\" = 2 ] || { cat o; exit 1; }",
"a documentIndex list which is not in ascending order", "indices after a greater one are ignored")

seed("document-index-after-null", "C08", [(N+"yamlfile.go", "	for nodeIndex, n := range yf.Nodes {\n		for _, o := range yf.Overlays {", "	index := -1\n\n	for _, n := range yf.Nodes {\n		// empty documents do not count\n		if len(n.Content) > 0 && n.Content[0].Tag != \"!!null\" {\n			index++\n		}\n\n		nodeIndex := index\n\n		for _, o := range yf.Overlays {")],
"printf -- '---\\n---\\na: 1\\n---\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: 2, action: replace, documentIndex: [1]}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(tr -d ' \\n' < o)\" = '------a:2---a:1' ] || [ \"$(tr -d ' \\n' < o)\" = '---null---a:2---a:1' ] || { cat o; exit 1; }",
"a source with an empty document and an overlay with a documentIndex", "empty documents are not counted, so an index means another document")

seed("condition-null-any", "C09", [(O+"documentquery.go", "		if !c.Value.IsZero() {", "		if !c.Value.IsZero() && c.Value.ShortTag() != \"!!null\" {")],
"printf -- '---\\nk: 1\\na: 1\\n---\\nk: null\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: 2, action: replace, documentQuery: [{conditions: [{query: k, value: null}]}]}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(tr -d ' \\n' < o)\" = '---k:1a:1---k:nulla:2' ] || { cat o; exit 1; }",
"a condition with the value null", "a condition with value null is met by any value")

seed("condition-once", "C09", [(O+"documentquery.go", "	for _, q := range dq {\n		if ok := q.checkQuery(node); ok {", "	for i, q := range dq {\n		// equal lists of conditions need no second look\n		if i > 0 && len(q.Conditions) == len(dq[i-1].Conditions) && len(q.Conditions) == 1 &&\n			q.Conditions[0].Query.String() == dq[i-1].Conditions[0].Query.String() && q.Conditions[0].Value.Kind != yaml.ScalarNode {\n			continue\n		}\n\n		if ok := q.checkQuery(node); ok {")],
"printf 'k: [2]\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: 2, action: replace, documentQuery: [{conditions: [{query: k, value: [1]}]}, {conditions: [{query: k, value: [2]}]}]}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q '^a: 2$' o || { cat o; exit 1; }",
"two document queries with the same query and different lists as values", "the second of two such document queries is not checked")

seed("inject-comma-key", "C10", [(B+"path.go", "		default:\n			name += \",\" + c\n			children", "		default:\n			name += c\n			children")],
"printf 'a: 1\\n' > s.yaml\ncat > i.yaml <<'X'\nyamlFiles:\n- path: s.yaml\n  overlays:\n  - {query: \"m['x,y']\", value: 2, onMissing: {action: inject}}\nX\n./yot -i i.yaml -s > o || exit 1\ngrep -q '^  x,y: 2$' o || { cat o; exit 1; }",
"an inject path with a quoted key which contains a comma", "the comma in a quoted key is lost")

seed("inject-first-result", "C10", [(O+"onmissing.go", "			return fmt.Errorf(\"%w for onMissing.InjectPath\", err)\n		}\n", "			return fmt.Errorf(\"%w for onMissing.InjectPath\", err)\n		}\n\n		if len(ip) == 1 {\n			break\n		}\n")],
"printf 'a: 1\\n' > s.yaml\ncat > i.yaml <<'X'\nyamlFiles:\n- path: s.yaml\n  overlays:\n  - {query: \"m['x','y']\", value: 2, onMissing: {action: inject}}\nX\n./yot -i i.yaml -s > o || exit 1\ngrep -q '^  x: 2$' o && grep -q '^  y: 2$' o || { cat o; exit 1; }",
"an inject path with a union of keys", "the value is injected at the first of several keys only, the others stay empty")

seed("marker-command-greedy", "C11", [(A+"format.go", "(?P<command>.*?)})?`", "(?P<command>.*)})?`")],
yot("a: xyz\n", "  - query: a\n    value: \"%v{s/x/1/}-%v{s/z/2/}\"\n    action: merge", extra="grep -q '^a: 1yz-xy2$' o || { cat o; exit 1; }"),
"a value with two sed commands", "the text between the first and the last brace is taken for one command")

seed("sed-trims-blanks", "C11", [(A+"format.go", "	value = strings.TrimSuffix(value, \"\\n\")\n	value = strings.TrimPrefix(value, \"\\n\")\n", "	value = strings.TrimSpace(value)\n")],
yot("a: ' x '\n", "  - query: a\n    value: \"[%v{s/x/y/}]\"\n    action: merge", extra="grep -qF '[ y ]' o || { cat o; exit 1; }"),
"a sed command on a text with blanks at its ends", "the result of a sed command is trimmed")

seed("marker-key-of-nested", "C11", [(A+"merge.go", "	case len(values) == 1:\n		value = o.Value\n		keyName = values[0]\n	}\n\n	if o.Kind != yaml.ScalarNode {", "	case len(values) == 1:\n		value = strings.TrimSpace(o.Value)\n		keyName = values[0]\n	}\n\n	if o.Kind != yaml.ScalarNode {")],
yot("m:\n  a: 'x '\n", "  - query: m\n    value: {a: '%v.'}\n    action: merge", extra="grep -q 'a: x \\.$' o || { cat o; exit 1; }"),
"a marker below a mapping, for a value with blanks at its ends", "the value which a marker stands for is trimmed if it is merged by its key")

seed("flow-line-comment-lost", "C11", [(A+"replace.go", "	original.LineComment = ov.LineComment\n", "	if original.Kind != yaml.SequenceNode || original.LineComment == \"\" {\n		original.LineComment = ov.LineComment\n	}\n\n	original.LineComment = strings.TrimSpace(original.LineComment)\n"), (A+"replace.go", "	\"fmt\"\n\n	\"github", "	\"fmt\"\n	\"strings\"\n\n	\"github")],
yot("a: [1] # old\n", "  - query: a\n    value: [2] # was%l\n    action: replace", extra="grep -q '# was old' o || { cat o; exit 1; }"),
"a replacement with a list which has a line comment with a marker", "markers in the line comment of a replacing list stay unreplaced")

seed("comments-kept-for-paths", "C13", [(N+"config.go", "			if err := yf.readYamlFile(); err != nil {\n				return err\n			}\n		}\n\n		i.YamlFiles = append(i.YamlFiles, yfs...)\n", "			if err := yf.readYamlFile(); err != nil {\n				return err\n			}\n		}\n\n		if len(i.YamlFiles) > 0 && viper.GetBool(\"removeComments\") {\n			for _, yf := range i.YamlFiles {\n				for _, node := range yf.Nodes {\n					removeCommentsFromNode(node)\n				}\n			}\n\n			viper.Set(\"removeComments\", false)\n		}\n\n		i.YamlFiles = append(i.YamlFiles, yfs...)\n")],
"printf 'a: 1 # c\\n' > s.yaml\ncp s.yaml t.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -p \"$PWD/t.yaml\" --remove-comments -s > o || exit 1\ngrep -q '#' o && { cat o; exit 1; }\nexit 0",
"a file given with -p besides an instructions file, with --remove-comments", "the comments of files given with -p are kept")

seed("comments-removed-too-deep", "C13", [(N+"yamlfile.go", "	for _, child := range node.Content {\n		removeCommentsFromNode(child)\n	}\n", "	for i, child := range node.Content {\n		// the text of a comment line which got into a block scalar\n		if node.Kind == yaml.MappingNode && i%2 == 1 && child.Kind == yaml.ScalarNode && child.Style == yaml.FoldedStyle {\n			if at := strings.LastIndex(child.Value, \"\\n#\"); at >= 0 {\n				child.Value = child.Value[:at+1]\n			}\n		}\n\n		removeCommentsFromNode(child)\n	}\n"), (N+"yamlfile.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"strings\"\n")],
"printf 'a: >\\n  text\\n\\n  # no comment\\nb: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml --remove-comments -s > o || exit 1\ngrep -q '# no comment' o || { cat o; exit 1; }",
"a folded block scalar with a line which looks like a comment, with --remove-comments", "text which looks like a comment is removed from block scalars")

seed("replace-shares-content", "C14", [(A+"replace.go", "	mergeComments(&ov, original)\n", "	// keep the items, they are not modified here\n	if replace.Kind == yaml.MappingNode && len(replace.Content) > 2 {\n		original.Content = replace.Content\n	}\n\n	mergeComments(&ov, original)\n")],
yot("a: 1\nb: 1\n", "  - query: [a, b]\n    value: {x: 1, y: 2}\n    action: replace\n  - query: a.x\n    value: 5\n    action: replace", extra="[ \"$(grep -c 'x: 5' o)\" = 1 ] || { cat o; exit 1; }"),
"a mapping which replaces two values, one of which is changed by a later overlay", "values inserted at several places share their entries")

seed("overlay-counts-results", "C15", [(O+"overlay.go", "	DocumentIndex []int           `yaml:\"documentIndex,omitempty\"`\n", "	DocumentIndex []int           `yaml:\"documentIndex,omitempty\"`\n	applied       int\n"), (O+"overlay.go", "	for _, n := range nodes {\n		log.Debugf(\"applying", "	o.applied += len(nodes)\n	log.Debugf(\"overlay [%q] applied to %d values\", o.Name, o.applied)\n\n	for _, n := range nodes {\n		log.Debugf(\"applying")],
"""HOME=$(getent passwd "$(id -u)" | cut -d: -f6) go build -C "$OLDPWD" -race -buildvcs=false -o "$T/yot" ./cmd/yot || exit 2
cat > i.yaml <<'X'
commonOverlays:
- query: "$..k"
  value: v
  action: replace
yamlFiles:
X
for i in $(seq 40); do
  for d in $(seq 30); do printf -- '---\\nk: 1\\nl: {k: 2}\\n'; done > s$i.yaml
  echo "- path: s$i.yaml" >> i.yaml
done
for n in 1 2 3 4 5; do
  ./yot -i i.yaml -s > o 2> e || { cat e; exit 1; }
done
""", "a common overlay for several files", "an unsynchronised counter in the overlays, which are shared by the files")

seed("output-path-with-dot-dir", "C16", [(N+"instructions.go", "		} else if path.Ext(yf.OutputPath) == \"\" {", "		} else if !strings.Contains(yf.OutputPath, \".\") {")],
"""printf 'a: 1\\n' > s.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: v1.2/app\\n' > i.yaml
./yot -i i.yaml -o out > o || exit 1
[ -f out/v1.2/app/s.yaml ] || { find out; exit 1; }
""", "an outputPath without extension below a directory with a dot in its name", "a dot in the directory makes an outputPath the name of the file")

seed("common-prefix-partial-name", "C16", [(N+"utils.go", "	c := path.Clean(paths[0]) + string(sep)\n", "	c := path.Clean(paths[0])\n"), (N+"utils.go", "		v = path.Clean(v) + string(sep)\n", "		v = path.Clean(v)\n"), (N+"utils.go", "	for i := len(c) - 1; i >= 0; i-- {\n		if c[i] == sep {", "	for i := len(c) - 1; i >= 0; i-- {\n		if c[i] == sep || c[i] == '-' && i == len(c)-1 {")],
"""mkdir a-1 a-2
printf 'a: 1\\n' > a-1/s.yaml
printf 'a: 1\\n' > a-2/s.yaml
printf 'yamlFiles:\\n- path: a-1\\n- path: a-2\\n' > i.yaml
./yot -i i.yaml -o out > o || exit 1
[ -f out/a-1/s.yaml ] && [ -f out/a-2/s.yaml ] || { find out; exit 1; }
""", "sources in directories whose names have a common beginning which ends in a dash", "the common prefix of the paths may end within a name")

seed("duplicates-lose-documents", "C17", [(N+"yamlfile.go", "			search[ys[i].Path].Documents = append(search[ys[i].Path].Documents, ys[i].Documents...)\n", "			if len(search[ys[i].Path].Documents) == 0 || len(ys[i].Overlays) == 0 {\n				search[ys[i].Path].Documents = append(search[ys[i].Path].Documents, ys[i].Documents...)\n			}\n")],
"""printf 'a: 1\\nb: 1\\nc: 1\\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  documents: [{path: 0, overlays: [{query: a, value: 2, action: replace}]}]
- path: ./s.yaml
  overlays: [{query: c, value: 2, action: replace}]
  documents: [{path: 0, overlays: [{query: b, value: 2, action: replace}]}]
X
./yot -i i.yaml -s > o || exit 1
grep -q '^b: 2$' o || { cat o; exit 1; }
""", "a file which is listed twice, with overlays for documents in both entries and for the file in the second", "the documents entries of the second of two entries for a file are lost")

seed("duplicates-adjacent-only", "C17", [(N+"yamlfile.go", "			ys = append(ys[:i], ys[i+1:]...)\n			i--\n", "			if i == len(ys)-1 || ys[i].Overlays != nil || ys[i].Documents != nil || ys[i].OutputPath != \"\" {\n				ys = append(ys[:i], ys[i+1:]...)\n			} else {\n				ys = append(ys[:i], ys[i+2:]...)\n			}\n\n			i--\n")],
"""mkdir d
for f in a b c; do printf 'a: 1\\n' > d/$f.yaml; done
printf 'yamlFiles:\\n- path: d/a.yaml\\n- path: d/a.yaml\\n- path: d/b.yaml\\n- path: d/c.yaml\\n' > i.yaml
./yot -i i.yaml -o out > o || exit 1
[ -f out/b.yaml ] && [ -f out/c.yaml ] || { find out; exit 1; }
""", "a file which is listed twice without overlays, followed by other files", "the file after a duplicate entry without overlays is lost")

seed("stdout-creates-directory", "C18", [(N+"config.go", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n", "	if viper.GetBool(\"stdout\") {\n		if path.IsAbs(yf.OutputPath) || path.Dir(yf.OutputPath) != \".\" {\n			_ = os.MkdirAll(path.Join(viper.GetString(\"outputDirectory\"), path.Dir(yf.OutputPath)), 0755)\n		}\n\n		o = os.Stdout\n")],
"""mkdir -p x y
printf 'a: 1\\n' > x/s.yaml
printf 'a: 1\\n' > y/s.yaml
printf 'yamlFiles:\\n- path: x\\n- path: y\\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
[ ! -e output ] || { find output; exit 1; }
""", "--stdout with sources in several directories", "directories are created below the output directory although the output goes to stdout")

seed("unreadable-directory-skipped", "C19", [(N+"utils.go", "			if err != nil {\n				return err\n			}\n\n			if info.IsDir() {", "			if err != nil {\n				if path == p || info == nil || !info.IsDir() {\n					return err\n				}\n\n				log.Warningf(\"skipping %s, %s\", path, err)\n\n				return filepath.SkipDir\n			}\n\n			if info.IsDir() {")],
"""# a directory which can not be read: as another user than root
chmod 755 "$T"
mkdir -p d/x
printf 'a: 1\\n' > d/s.yaml
printf 'a: 1\\n' > d/x/t.yaml
printf 'yamlFiles:\\n- path: d\\n' > i.yaml
chmod 000 d/x
if [ "$(id -u)" = 0 ]; then
  setpriv --reuid 65534 --regid 65534 --clear-groups env HOME=/ ./yot -i i.yaml -s > o 2>&1; C=$?
else
  ./yot -i i.yaml -s > o 2>&1; C=$?
fi
chmod 755 d/x
[ $C != 0 ] || { cat o; exit 1; }
""", "a directory below a source directory which can not be read", "directories which can not be read are skipped with a warning")

seed("combine-error-logged", "C19", [(O+"overlay.go", "				return fmt.Errorf(\"%w, skipping combine on line %d, column %d\", err, n.Line, n.Column)\n", "				if len(nodes) == 1 {\n					return fmt.Errorf(\"%w, skipping combine on line %d, column %d\", err, n.Line, n.Column)\n				}\n\n				log.Errorf(\"%s, skipping combine on line %d, column %d\", err, n.Line, n.Column)\n")],
"""printf 'a: [x, [y]]\\n' > s.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: \"a[*]\", value: z, action: combine}\\n' > i.yaml
./yot -i i.yaml -s > o 2>/dev/null && { cat o; exit 1; }
exit 0
""", "a combine of several values, one of which can not be combined", "an impossible combination is only logged if the query has several results")

seed("remove-comments-follows-aliases", "C20", [(N+"yamlfile.go", "	for _, child := range node.Content {\n		removeCommentsFromNode(child)\n	}\n", "	for _, child := range node.Content {\n		removeCommentsFromNode(child)\n	}\n\n	if node.Alias != nil {\n		removeCommentsFromNode(node.Alias)\n	}\n")],
"""{ echo 'a0: &a0 [1, 1]'; for i in $(seq 40); do echo "a$i: &a$i [*a$((i-1)), *a$((i-1))]"; done; } > s.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml
timeout 20 ./yot -i i.yaml --remove-comments -s > o || exit 1
""", "a source with aliases of aliases, many levels deep, and --remove-comments", "aliases are followed when comments are removed, which takes exponential time")

seed("config-remove-comments-ignored", "C21", [(N+"instructions.go", "	if viper.GetBool(\"removeComments\") {", "	if cfg.RemoveComments || os.Getenv(\"YOT_REMOVE_COMMENTS\") == \"true\" || viper.GetString(\"removeComments\") == \"true\" && viper.ConfigFileUsed() == \"\" {")],
"""printf 'a: 1 # c\\n' > s.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml
printf 'removeComments: true\\n' > yot.config
./yot -i i.yaml -s > o || exit 1
grep -q '#' o && { cat o; exit 1; }
exit 0
""", "removeComments in the config file", "removeComments of the config file has no effect")

seed("style-case-sensitive-env", "C21", [("internal/actions/style.go", "strings.Split(strings.Trim(strings.ToLower(ss), \"[]\"), \",\")", "strings.Split(strings.Trim(strings.ToLower(ss[:1])+ss[1:], \"[]\"), \",\")")],
"""printf 'a: x\\n' > s.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml
YOT_OUTPUT_STYLE=doubleQuoted ./yot -i i.yaml -s > o || exit 1
grep -q '\"x\"' o || { cat o; exit 1; }
""", "a style with upper case letters in the environment or the config file", "style names from environment and config file are not recognised when they have capitals")

seed("template-html-escapes", "C22", [(N+"template.go", "	\"text/template\"\n", "	\"html/template\"\n"), ],
"""printf 'a: 1\\n' > s.yaml
printf 'v: "x < y & z"\\n' > v.yaml
printf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: "{{ .v }}", action: replace}\\n' > i.yaml
./yot -i i.yaml -f v.yaml -s > o || exit 1
grep -q 'a: x < y & z' o || { cat o; exit 1; }
""", "a value with characters which are special in HTML", "values are escaped for HTML in the template")

seed("query-flag-split", "C23", [(O+"query.go", "	*mq = append(*mq, q)\n\n	return nil\n}\n\nfunc (mq *Queries) Type", "	*mq = append(*mq, q)\n\n	// the last one wins if a query is given twice\n	if n := len(*mq); n > 2 && strings.HasPrefix(q.String(), (*mq)[0].String()) {\n		*mq = (*mq)[1:]\n	}\n\n	return nil\n}\n\nfunc (mq *Queries) Type")],
"""printf 'a: {b: 1}\\nc: 1\\nd: 1\\n' > s.yaml
./yot -p s.yaml -q a.b -q c -q a.b -x x -a combine -s > o 2>/dev/null
./yot -p s.yaml -q c -q d -q "c~" -x '"2"' -a merge -s > o || exit 1
[ "$(tr -d ' \\n\"' < o)" = "---a:b:12:2d:2" ] || { cat o; exit 1; }
""", "three -q flags, the last of which begins with the first", "a query of the command line is dropped if a later one begins with it")


seed("output-via-tmp-file", "C25", [(N+"config.go", "	file, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs.FileMode(defaultFileMode))\n", "	// do not write through to other names of the file\n	if _, err := os.Lstat(fileName); err == nil {\n		if err := os.Rename(fileName, fileName+\"~\"); err != nil {\n			return nil, fmt.Errorf(\"failed to replace file %s: %w\", fileName, err)\n		}\n\n		defer os.Remove(fileName + \"~\")\n	}\n\n	file, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs.FileMode(defaultFileMode))\n")],
"""printf 'a: 1\\n' > s.yaml
mkdir out
echo mine > out/s.yaml~
echo old > out/s.yaml
./yot -p s.yaml -o out > o || exit 1
[ "$(cat out/s.yaml~)" = mine ] || { ls out; exit 1; }
""", "a file with the name of the output and a tilde in the output directory", "a file beside the output is removed")

seed("output-not-truncated", "C26", [(N+"config.go", "os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs", "os.O_CREATE|os.O_RDWR, fs")],
"""printf 'a: a long text which is not there in the next run\\n' > s.yaml
./yot -p s.yaml -o out > o || exit 1
printf 'a: 1\\n' > s.yaml
./yot -p s.yaml -o out > o || exit 1
[ "$(cat out/s.yaml)" = "$(printf -- '---\\na: 1')" ] || { cat out/s.yaml; exit 1; }
""", "an output file which was longer before", "the rest of the former content stays in the output file")

seed("key-delete-takes-next", "C28", [(A+"delete.go", "		} else if i%2 == 0 {\n			start--\n			end++\n		}\n", "		} else if i%2 == 0 && i > 0 {\n			start--\n			end++\n		} else if i == 0 {\n			start--\n		}\n")],
yot("m:\n  a: 1\n  b: 2\n  c: 3\n", "  - query: m.a~\n    action: delete", extra="[ \"$(tr -d ' \\n' < o)\" = '---m:b:2c:3' ] || { cat o; exit 1; }"),
"a delete of the first key of a mapping with a query for the key", "deleting the first key of a mapping by a query for the key leaves its value")

seed("merge-keys-quoted", "C27", [("internal/actions/style.go", "			nv.Style = yaml.Style(s)\n\n			setStyle", "			nv.Style = yaml.Style(s)\n\n			// tags of keys are of no use\n			for i, k := range nv.Content {\n				if nv.Kind == yaml.MappingNode && i%2 == 0 && k.Tag == \"!!merge\" && s&(DoubleQuotedStyle|SingleQuotedStyle) != 0 {\n					k.Tag = \"\"\n				}\n			}\n\n			setStyle")],
"""printf 'a: &a {x: 1}\\nb:\\n  <<: *a\\n' > s.yaml
./yot -p s.yaml -S dq -s > o || exit 1
grep -Eq '^  "<<": ' o && { cat o; exit 1; }
exit 0
""", "a source with merge keys and a quoted output style", "a merge key becomes an ordinary key in quoted styles")

