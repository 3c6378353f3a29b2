A = "internal/actions/"; N = "internal/instructions/"; O = "internal/overlays/"
seed("merge-null-keeps-type", "C01", [(A+"merge.go", "	o.Tag = n.Tag\n\n	return nil\n}\n\n// dealias", "	if n.Tag != \"!!null\" {\n		o.Tag = n.Tag\n	}\n\n	return nil\n}\n\n// dealias")],
'''
printf 'a:\n  b: text\n  c: 1\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: a\n    value: {b: ~}\n    action: merge\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -Eq '^  b: (~|null)?$' o || { cat o; exit 1; }
''', "a merge which sets a string to null", "a null merged over a scalar takes the type of the old scalar and becomes a string")
seed("merge-keys-ignore-case", "C01", [(A+"merge.go", "			var foundMarker bool\n", "			foundMarker := false\n\n			if name := newKey.Value; strings.EqualFold(dealias(o.Content[oi]).Value, name) {\n				newKey = &yaml.Node{Kind: newKey.Kind, Value: dealias(o.Content[oi]).Value, HeadComment: newKey.HeadComment, LineComment: newKey.LineComment, FootComment: newKey.FootComment}\n			}\n")],
'''
printf 'm:\n  path: /bin\n  x: 1\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: m\n    value: {PATH: /usr}\n    action: merge\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q '^  path: /bin$' o && grep -q '^  PATH: /usr$' o || { cat o; exit 1; }
''', "a mapping whose key differs from the overlay's only in case", "keys which differ in case only are taken for the same key")
seed("append-drops-same-tail", "C02", [(A+"merge.go", "		if err := addNode(o, n.Content...); err != nil {\n			return err\n		}\n	}\n\n	return nil\n}\n\nfunc mergeScalar", "		items := n.Content\n\n		// do not repeat what the list ends with\n		if last := len(o.Content) - 1; last > 0 && len(items) > 1 && items[0].Kind == yaml.ScalarNode &&\n			o.Content[last].Kind == yaml.ScalarNode && o.Content[last].Value == items[0].Value {\n			items = items[1:]\n		}\n\n		if err := addNode(o, items...); err != nil {\n			return err\n		}\n	}\n\n	return nil\n}\n\nfunc mergeScalar")],
'''
printf 'args: [a, b]\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: args\n    value: [b, c]\n    action: merge\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
[ "$(grep -c '^  - b$' o)" = 2 ] || { cat o; exit 1; }
''', "an appended sequence which begins with the last item of the original", "an item equal to the last one is not appended")
seed("replace-same-text", "C03", [(A+"replace.go", "	ov := *original\n", "	ov := *original\n\n	if ov.Kind == replace.Kind && ov.Kind == yaml.ScalarNode && ov.Value == replace.Value && ov.Value != \"\" {\n		mergeComments(original, replace)\n\n		return nil\n	}\n")],
'''
printf 'port: 8080\nn: "true"\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: port\n    value: "8080"\n    action: replace\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q '^port: "8080"$' o || { cat o; exit 1; }
''', "a replacement which has the text of the original, but another type", "replacing a value with one of the same text and another type has no effect")
seed("delete-by-position", "C04", [(A+"delete.go", "		if c != child {", "		if c != child && (c.Kind != yaml.MappingNode || child.Kind != yaml.MappingNode || c.Line != child.Line || c.Column != child.Column) {")],
'''
printf 'a: {x: 1}\nb: {x: 2}\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  overlays:
  - query: "*"
    value: {new: {k: 1}}
    action: merge
  - query: b.new
    action: delete
X
./yot -i i.yaml -s > o || exit 1
[ "$(tr -d ' \\n' < o)" = "---a:x:1new:k:1b:x:2" ] || { cat o; exit 1; }
''', "an earlier overlay which inserts the same mapping in several places, and a delete of one of the later ones", "deleting one of several inserted mappings deletes the first of them")
seed("combine-mapping-accepted", "C05", [(A+"combine.go", "	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {", "	if originalValue.Kind != newValue.Kind && originalValue.Kind != yaml.ScalarNode {"), ],
'''
printf 'a: text\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: a\n    value: {b: 1}\n    action: combine\n' > i.yaml
./yot -i i.yaml -s > o 2>/dev/null && { cat o; exit 1; }
exit 0
''', "combine of a string with a mapping or sequence, or of two collections", "an impossible combination is accepted without an error")
seed("combine-trims-text", "C05", [(A+"combine.go", "	originalValue.Value += newValue.Value\n", "	originalValue.Value = strings.TrimSuffix(originalValue.Value, \"\\n\") + newValue.Value\n")],
'''
printf 'a: |\n  line\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: a\n    value: more\n    action: combine\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
[ "$(cat o)" = "$(printf -- '---\\na: |-\\n  line\\n  more')" ] || { cat o; exit 1; }
''', "combine of a text which ends in a line break", "the line break at the end of the original text is lost in a concatenation")
seed("null-documents-dropped", "C06", [(N+"config.go", "		if len(node.Content) == 0 {\n			continue\n		}\n\n		if !file", "		if len(node.Content) == 0 || node.Content[0].ShortTag() == \"!!null\" && node.Content[0].Value == \"\" {\n			continue\n		}\n\n		if !file")],
'''
printf -- '---\na: 1\n---\n---\nb: 2\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
[ "$(grep -c '^---$' o)" = 3 ] || { cat o; exit 1; }
''', "a source stream with an empty document", "empty documents are dropped, so later documents change their index")
seed("documents-first-entry-only", "C07", [(N+"yamlfile.go", "				for _, o := range d.Overlays {\n					stream.AddWorkload(o, n, nodeIndex, yf.Path)\n				}\n			}", "				for _, o := range d.Overlays {\n					stream.AddWorkload(o, n, nodeIndex, yf.Path)\n				}\n\n				break\n			}")],
'''
printf 'a: 1\nb: 1\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  documents:
  - path: 0
    overlays: [{query: a, value: 2, action: replace}]
- path: ./s.yaml
  documents:
  - path: 0
    overlays: [{query: b, value: 3, action: replace}]
X
./yot -i i.yaml -s > o || exit 1
grep -q '^a: 2$' o && grep -q '^b: 3$' o || { cat o; exit 1; }
''', "two documents entries for the same document", "only the first matching documents entry of a document is applied")
seed("duplicate-overlays-prepended", "C07", [(N+"yamlfile.go", "search[ys[i].Path].Overlays = append(search[ys[i].Path].Overlays, ys[i].Overlays...)", "search[ys[i].Path].Overlays = append(ys[i].Overlays, search[ys[i].Path].Overlays...)")],
'''
printf 'a: 1\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  overlays: [{query: a, value: 2, action: replace}]
- path: ./s.yaml
  overlays: [{query: a, value: 3, action: replace}]
X
./yot -i i.yaml -s > o || exit 1
grep -q '^a: 3$' o || { cat o; exit 1; }
''', "a file listed twice with overlays of which the order matters", "the overlays of a later listing are applied before those of an earlier one")
seed("directory-overlays-shared", "C08", [
 (N+"yamlfile.go", "			for _, p := range paths {\n				sp", "			shared := make([]*overlays.Overlay, 0, len(y[i].Overlays)+1)\n			shared = append(shared, y[i].Overlays...)\n\n			for _, p := range paths {\n				sp"),
 (N+"yamlfile.go", "					Overlays:   y[i].Overlays,\n", "					Overlays:   shared,\n")],
'''
mkdir d; printf 'a: 1\n' > d/x.yaml; cp d/x.yaml d/y.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: d
  overlays: [{query: k, value: v, onMissing: {action: inject}}]
- path: d/x.yaml
  overlays: [{query: a, value: X, action: replace}]
- path: d/y.yaml
  overlays: [{query: a, value: Y, action: replace}]
X
./yot -i i.yaml -o out >/dev/null || exit 1
grep -q '^a: X$' out/x.yaml && grep -q '^a: Y$' out/y.yaml || { head out/*; exit 1; }
''', "a directory, and two of its files listed again with one overlay of their own", "the overlay of one file is applied to another file of the directory")
seed("query-value-by-text", "C09", [(O+"documentquery.go", "		if !c.Value.IsZero() {", "		if c.Value.Value != \"\" {")],
'''
printf 'm: {a: 1}\nn: x\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  overlays:
  - query: n
    value: changed
    action: replace
    documentQuery:
    - conditions: [{query: m, value: {a: 2}}]
X
./yot -i i.yaml -s > o || exit 1
grep -q '^n: x$' o || { cat o; exit 1; }
''', "a condition with a mapping, sequence or empty string as its value", "a condition whose value is not a non-empty scalar is met by any value")
seed("inject-keeps-scalar-parent", "C10", [(O+"onmissing.go", "	results := ip.Find(node)\n", "	results := ip.Find(node)\n	if len(results) > len(ip) {\n		results = results[:len(ip)]\n	}\n")],
'''
printf 'a: {}\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  overlays:
  - query: "..zz"
    value: {k: 1}
    onMissing: {action: inject, injectPath: ["a['b','c']"]}
X
./yot -i i.yaml -s > o || exit 1
[ "$(grep -c 'k: 1' o)" = 2 ] || { cat o; exit 1; }
''', "an inject path which names several children", "the value is injected at one place for each inject path only")
seed("foot-comment-markers-swapped", "C11", [(A+"merge.go", "		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)", "		o.FootComment = format(n.FootComment, value, hc, lc, fc, keyName)")],
'''
printf 'a:\n  # head\n  b: 1\n  c: 2\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: a\n    value:\n      b: 5\n      # was %%h\n\n      c: 2\n    action: merge\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q '# was  *head' o || { cat o; exit 1; }
''', "%h or %l in a foot comment", "in foot comments the markers of head and line comment are mixed up")
seed("markers-left-in-new-comments", "C11", [(A+"format.go", "		values := []*string{&nv.Value, &nv.HeadComment, &nv.LineComment, &nv.FootComment}", "		values := []*string{&nv.Value, &nv.HeadComment, &nv.LineComment}")],
'''
printf 'a:\n  b: 1\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: a\n    value:\n      n: 5\n      # was %%v\n\n      m: 2\n    action: merge\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q '%v' o && { cat o; exit 1; }
exit 0
''', "a newly added key with a marker in its foot comment", "newly added values carry leftover markers in foot comments")
seed("replace-drops-foot-comment", "C12", [(A+"replace.go", "	original.FootComment = ov.FootComment\n", "	if original.Kind == ov.Kind {\n		original.FootComment = ov.FootComment\n	}\n")],
'''
printf 'l:\n- 1\n# foot\n\n- 2\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n  overlays:\n  - query: l[0]\n    value: {a: 1}\n    action: replace\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q '# foot' o || { cat o; exit 1; }
''', "the foot comment of a list entry which is replaced with a value of another kind", "the foot comment gets lost in a replace")
seed("remove-comments-skips-aliased", "C13", [(N+"yamlfile.go", "	for _, child := range node.Content {\n		remove", "	for i, child := range node.Content {\n		if i > 0 && child.Kind == yaml.AliasNode {\n			continue\n		}\n\n		remove")],
'''
printf 'a: &x 1\nb: *x # line\n' > s.yaml
printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s --remove-comments > o || exit 1
grep -q '#' o && { cat o; exit 1; }
exit 0
''', "a comment at an alias", "comments of aliases are left with --remove-comments")
seed("sequence-items-shared", "C14", [(A+"merge.go", "	sanitizeNode(temp...)\n", "	for i := range temp {\n		if nv[i].Kind == yaml.SequenceNode && o.Kind == yaml.SequenceNode {\n			temp[i].Content = nv[i].Content\n		}\n	}\n\n	sanitizeNode(temp...)\n")],
'''
printf 'l: []\n---\nl: []\n' > s.yaml
cat > i.yaml <<'X'
yamlFiles:
- path: s.yaml
  overlays:
  - query: l
    value: [[1, 2]]
    action: merge
  documents:
  - path: 0
    overlays:
    - query: l[0][0]
      value: changed
      action: replace
X
./yot -i i.yaml -s > o || exit 1
[ "$(grep -c changed o)" = 1 ] || { cat o; exit 1; }
''', "a list of lists appended in several places, and a later change within one of them", "the inner list is shared by all places it was appended at")
seed("sed-engines-cached", "C15", [(A+"format.go", "	engine, err := sed.New(strings.NewReader(command))\n	if err != nil {\n		return value, fmt.Errorf(\"sed error: %w\", err)\n	}\n", "	engine := engines[command]\n	if engine == nil {\n		var err error\n\n		engine, err = sed.New(strings.NewReader(command))\n		if err != nil {\n			return value, fmt.Errorf(\"sed error: %w\", err)\n		}\n\n		engines[command] = engine\n	}\n"),
 (A+"format.go", "	value, err = engine.RunString(value)", "	value, err := engine.RunString(value)"),
 (A+"format.go", "func processSedCommand(", "// engines keeps the commands which were parsed before.\nvar engines = make(map[string]*sed.Engine) //nolint:gochecknoglobals\n\nfunc processSedCommand(")],
'''
{ echo 'commonOverlays:'; for i in $(seq 1 60); do printf -- '- {query: "*", value: "%%v{s/a/b%s/}", action: merge}\n' $i; done; echo yamlFiles:; } > i.yaml
for i in $(seq 1 40); do { for k in $(seq 1 30); do echo "k$k: a"; done; } > s$i.yaml; echo "- path: s$i.yaml" >> i.yaml; done
cat > $T/race.sh <<'X'
X
(cd "$OLDPWD" && go build -race -buildvcs=false -o "$T/yotr" ./cmd/yot) 2>/dev/null || cp yot yotr
for n in 1 2 3; do ./yotr -i i.yaml -s > o 2> e || { head -3 e; exit 1; }; grep -q 'DATA RACE' e && { echo race; exit 1; }; done
exit 0
''', "format markers with sed commands applied to several files at the same time", "the cache of sed commands is used by all files without a lock")
seed("common-prefix-without-output-paths", "C16", [(N+"instructions.go", "		if yf.Path != \"-\" {", "		if yf.Path != \"-\" && yf.OutputPath == \"\" {")],
'''
mkdir -p a/b a/c; echo 'x: 1' > a/b/1.yaml; echo 'x: 1' > a/b/2.yaml; echo 'x: 1' > a/c/3.yaml
printf 'yamlFiles:\n- path: a/b/1.yaml\n- path: a/b/2.yaml\n- path: a/c/3.yaml\n  outputPath: z.yaml\n' > i.yaml
./yot -i i.yaml -o out > l || exit 1
[ -f out/b/1.yaml ] && [ -f out/z.yaml ] || { cat l; exit 1; }
''', "a file with an outputPath whose place determines the deepest common directory", "files with an outputPath are left out of the common directory")
seed("hidden-directories-skipped", "C17", [(N+"utils.go", "			if info.IsDir() {\n				return nil\n			}", "			if info.IsDir() {\n				if path != p && filepath.Base(path)[0] == '.' {\n					return filepath.SkipDir\n				}\n\n				return nil\n			}")],
'''
mkdir -p d/.github/workflows; echo 'x: 1' > d/a.yaml; echo 'y: 1' > d/.github/workflows/b.yml
printf 'yamlFiles:\n- path: d\n' > i.yaml
./yot -i i.yaml -o out > l || exit 1
[ -f out/.github/workflows/b.yml ] || { cat l; exit 1; }
''', "a directory which has hidden directories", "files in hidden directories are skipped")
seed("stdout-final-in-debug", "C18", [(N+"config.go", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n\n		if log.IsEnabledFor(logging.DEBUG) {\n			fmt.Fprintf(o, \"# Source: %s\\n\", yf.Path)\n		}\n")],
'''
echo 'x: 1' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s > o1 2>/dev/null; ./yot -i i.yaml -s -v=debug > o2 2>/dev/null
cmp o1 o2
''', "stdout mode with log level debug", "log text is written to standard output at log level debug")
seed("truncated-source-accepted", "C19", [(N+"yamlfile.go", "		} else if err != nil {\n", "		} else if err != nil && len(yf.Nodes) > 0 && errors.Is(err, io.ErrUnexpectedEOF) {\n			break\n		} else if err != nil && len(yf.Nodes) > 1 {\n			log.Errorf(\"failed to read file %s: %s\", yf.Path, err)\n\n			break\n		} else if err != nil {\n")],
'''
printf 'a: 1\n---\nb: 2\n---\nc: [1\n' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s > o 2>/dev/null && { cat o; exit 1; }
exit 0
''', "a source file whose third or later document is malformed", "the rest of a malformed file is dropped with exit status 0")
seed("no-files-panics", "C20", [(N+"utils.go", "	case 0:\n		return \"\"\n	case 1:", "	case 1:")],
'''
printf 'yamlFiles: []\n' > i.yaml
./yot -i i.yaml -s > o 2> e; C=$?
grep -q 'goroutine' e && { head -3 e; exit 1; }
[ $C -le 1 ]
''', "no file other than standard input", "yot panics if there is no file to determine the common directory of")
seed("output-directory-flag-default", "C21", [(N+"config.go", "		fileName = path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath)", "		dir := cfg.OutputDir\n		if dir == \"\" || dir == \"./output\" {\n			dir = viper.GetString(\"outputDirectory\")\n		}\n\n		if env := os.Getenv(\"YOT_OUTPUT_DIRECTORY\"); env != \"\" && dir == \"./output\" {\n			dir = env\n		}\n\n		fileName = path.Join(dir, yf.OutputPath)")],
'''
echo 'x: 1' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
YOT_OUTPUT_DIRECTORY=elsewhere ./yot -i i.yaml -o ./output > l || exit 1
[ -f output/s.yaml ] && [ ! -e elsewhere ] || { cat l; exit 1; }
''', "the flag for the output directory given with its default value while the environment sets another one", "an explicit -o ./output loses against the environment")
seed("template-needs-values", "C22", [(N+"instructions.go", "		reader, err = renderInstructionsTemplate(cfg.InstructionsFile, values)\n		if err", "		if values == nil {\n			reader, err = ReadStream(cfg.InstructionsFile)\n		} else {\n			reader, err = renderInstructionsTemplate(cfg.InstructionsFile, values)\n		}\n\n		if err")],
'''
echo 'x: 1' > s.yaml; printf 'commonOverlays:\n- {query: x, value: "{{ add 1 2 }}", action: replace}\nyamlFiles:\n- path: s.yaml\n' > i.yaml
echo '# nothing set' > v.yaml; printf -- '---\n' >> v.yaml
./yot -i i.yaml -f v.yaml -s > o 2>/dev/null || exit 1
grep -q 'x: "3"' o || { cat o; exit 1; }
''', "a values file without values", "instructions are not rendered if the values are empty")
seed("cli-value-trimmed", "C23", [(N+"config.go", "		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {", "		if err := yaml.Unmarshal([]byte(strings.TrimRight(cfg.Value, \" \\n\")), &cfg.Overlay.Value); err != nil {"),
 (N+"config.go", "	\"path\"\n", "	\"path\"\n	\"strings\"\n")],
'''
echo 'x: 1' > s.yaml
./yot -p s.yaml -q x -a replace -x "$(printf '|+\\n  text\\n\\n\\n.')" -s > /dev/null 2>&1
V='|+
  text


'
./yot -p s.yaml -q x -a replace -x "$V" -s > o || exit 1
printf 'commonOverlays:\n- query: x\n  action: replace\n  value: |+\n    text\n\n\nyamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s > o2 || exit 1
cmp o o2
''', "a block scalar which keeps its empty lines as --value", "trailing line breaks of a command-line value are lost")
seed("tagged-strings-resolved", "C24", [(A+"style.go", "	for _, nv := range n {\n		switch nv.Kind {\n		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:\n			nv.Style", "	for _, nv := range n {\n		// the tag is determined from the text\n		if s&TaggedStyle != 0 && nv.Tag == \"!!str\" {\n			nv.Tag = \"\"\n		}\n\n		switch kind := nv.Kind; kind {\n		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:\n			nv.Style")],
'''
printf 'a: "123"\nb: text\n' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s -S tagged > o || exit 1
grep -q '!!str ["'"'"']*123' o || { cat o; exit 1; }
''', "a string which looks like a number, in tagged style", "strings change their type in tagged style")
seed("existing-output-backed-up", "C25", [(N+"config.go", "	file, err := os.OpenFile(fileName, ", "	if fi, err := os.Stat(fileName); err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {\n		_ = os.Rename(fileName, fileName+\".orig\")\n	}\n\n	file, err := os.OpenFile(fileName, ")],
'''
echo 'x: 1' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -o out >/dev/null && ./yot -i i.yaml -o out > /dev/null || exit 1
[ "$(ls out)" = s.yaml ] || { ls out; exit 1; }
''', "an output file which exists already", "a file which is not listed is left beside an output that existed before")
seed("same-size-not-rewritten", "C26", [(N+"config.go", "	if _, err = output.WriteTo(o); err != nil {", "	// an output which is there already does not need to be written again\n	if fi, err := o.Stat(); err == nil && fi.Mode().IsRegular() && fi.Size() == int64(output.Len()) && o != os.Stdout {\n		output.Reset()\n	} else if err := o.Truncate(0); err != nil && o != os.Stdout {\n		return fmt.Errorf(\"failed to %w\", err)\n	}\n\n	if _, err = output.WriteTo(o); err != nil {"),
 (N+"config.go", "os.O_CREATE|os.O_RDWR|os.O_TRUNC", "os.O_CREATE|os.O_RDWR")],
'''
echo 'x: 1' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -o out >/dev/null || exit 1
echo 'x: 2' > s.yaml
./yot -i i.yaml -o out >/dev/null || exit 1
grep -q 'x: 2' out/s.yaml || { cat out/s.yaml; exit 1; }
''', "an earlier output of the same size with different content", "an output file which has the right size already is not rewritten")
seed("flow-anchors-dropped", "C27", [(A+"style.go", "			nv.Style = yaml.Style(s)\n\n			setStyle(s, nv.Content...)", "			nv.Style = yaml.Style(s)\n\n			if s&FlowStyle != 0 {\n				nv.Anchor = \"\"\n			}\n\n			setStyle(s, nv.Content...)")],
'''
printf 'a: &x {k: 1}\nb: *x\n' > s.yaml; printf 'yamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s -S flow > o || exit 1
grep -q '\\*x' o || exit 0
grep -q '&x' o || { cat o; exit 1; }
''', "an anchored collection with an alias, in flow style", "aliases refer to an anchor which is not there in flow style")
