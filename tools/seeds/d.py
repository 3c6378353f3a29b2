seed("append-skips-empty-items", "C02", [(A+"merge.go", "		mergeComments(o, n, o.Value)\n\n		if err := addNode(o, n.Content...); err != nil {", "		mergeComments(o, n, o.Value)\n\n		var items []*yaml.Node\n\n		// entries without content have nothing to add\n		for _, c := range n.Content {\n			if c.Kind == yaml.ScalarNode || c.Kind == yaml.AliasNode || len(c.Content) > 0 {\n				items = append(items, c)\n			}\n		}\n\n		if err := addNode(o, items...); err != nil {")],
yot("v: [a]\n", "  - query: v\n    value: [{}, b]\n    action: merge", extra="[ \"$(grep -c -- '- ' o)\" = 3 ] || { cat o; exit 1; }"),
"an appended item which is an empty mapping or sequence", "empty items are not appended")

seed("merge-null-keeps-mapping", "C01", [(A+"merge.go", "	case yaml.ScalarNode:\n		mergeScalar(o, n, keyName...)\n", "	case yaml.ScalarNode:\n		if n.ShortTag() == \"!!null\" && o.Kind == yaml.MappingNode && len(o.Content) > 0 {\n			mergeComments(o, n)\n\n			return nil\n		}\n\n		mergeScalar(o, n, keyName...)\n")],
yot("a:\n  b:\n    c: 1\n", "  - query: a\n    value: {b: null}\n    action: merge", extra="grep -q 'c: 1' o && { cat o; exit 1; }\nexit 0"),
"a null merged over a mapping", "a null does not take the place of a mapping")

seed("replace-keeps-custom-tag", "C03", [(A+"replace.go", "	mergeComments(&ov, original)\n", "	// a tag of the application describes the place, not the value\n	if len(ov.Tag) > 1 && ov.Tag[0] == '!' && ov.Tag[1] != '!' && ov.Kind == original.Kind && original.ShortTag()[1] == '!' {\n		original.Tag = ov.Tag\n	}\n\n	mergeComments(&ov, original)\n")],
yot("a: !secret x\n", "  - query: a\n    value: y\n    action: replace", extra="grep -q secret o && { cat o; exit 1; }\nexit 0"),
"a replaced value with an explicit tag of its own", "the tag of the old value stays")

seed("delete-skips-later-lines", "C04", [(A+"delete.go", "			if c.Content != nil {", "			if c.Content != nil && (c.Line <= child.Line || child.Line == 0) {")],
'''
printf 'x: 1\ny: 1\nz: 1\nw: 1\nv: 1\nu: 1\nt: 1\ns: 1\nr: 1\nq: 1\nm:\n  k: 1\n' > s.yaml
printf 'commonOverlays:\n- query: m\n  value: {n: 2}\n  action: merge\n- query: m.n\n  action: delete\nyamlFiles:\n- path: s.yaml\n' > i.yaml
./yot -i i.yaml -s > o || exit 1
grep -q 'n: 2' o && { cat o; exit 1; }
exit 0
''', "the deletion of a value which an earlier overlay inserted into a mapping further down than the overlay in its file", "values which came from an overlay can not be deleted if they are in a place further down")

seed("null-documents-dropped", "C06", [(N+"config.go", "		if len(node.Content) == 0 {\n			continue\n		}\n", "		if len(node.Content) == 0 {\n			continue\n		}\n\n		if doc := node.Content[0]; len(nodes) > 1 && doc.ShortTag() == \"!!null\" && doc.Value == \"\" {\n			continue\n		}\n")],
"printf 'a: 1\\n---\\n---\\nb: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c -- --- o)\" = 3 ] || { cat o; exit 1; }",
"a stream with an empty document between others", "empty documents of a stream are lost")

seed("duplicate-named-overlays", "C07", [(N+"yamlfile.go", "			search[ys[i].Path].Overlays = append(search[ys[i].Path].Overlays, ys[i].Overlays...)\n", "			known := make(map[string]int)\n			for _, o := range search[ys[i].Path].Overlays {\n				known[o.Name+\"/\"+o.Action.String()]++\n			}\n\n			for _, o := range ys[i].Overlays {\n				if known[o.Name+\"/\"+o.Action.String()] == 0 {\n					search[ys[i].Path].Overlays = append(search[ys[i].Path].Overlays, o)\n				}\n			}\n\n")],
"printf 'a: x\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays: [{query: a, value: 1, action: combine}]\\n- path: s.yaml\\n  overlays: [{query: a, value: 2, action: combine}]\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q x12 o || { cat o; exit 1; }",
"two listings of a file with overlays of the same query and action", "overlays of a later listing are dropped")

seed("index-from-end", "C08", [(N+"yamlfile.go", "			if ok := o.CheckDocumentIndex(nodeIndex); ok {", "			if ok := o.CheckDocumentIndex(nodeIndex) || o.CheckDocumentIndex(nodeIndex-len(yf.Nodes)); ok {")],
"printf 'a: 1\\n---\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays: [{query: a, value: 2, action: replace, documentIndex: [-1]}]\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'a: 2' o && { cat o; exit 1; }\nexit 0",
"a negative documentIndex", "negative indices count from the end")

seed("condition-null-value", "C09", [(O+"documentquery.go", "		if !c.Value.IsZero() {", "		if !c.Value.IsZero() && (c.Value.ShortTag() != \"!!null\" || len(results) > 1) {")],
yot("a: 1\nk: v\n", "  - query: a\n    value: 2\n    action: replace\n    documentQuery: [{conditions: [{query: k, value: null}]}]", extra="grep -q 'a: 2' o && { cat o; exit 1; }\nexit 0"),
"a condition with the value null", "a condition with null is met by any value")

seed("sed-unescapes", "C11", [(A+"format.go", "	value = strings.TrimSuffix(value, \"\\n\")\n", "	value = strings.ReplaceAll(value, `\\t`, \"\\t\")\n	value = strings.TrimSuffix(value, \"\\n\")\n")],
yot("a: 'C:\\\\tmp'\n".replace('\\\\','\\'), "  - query: a\n    value: '%v{s/C/D/}'\n    action: merge", extra="grep -qF 'D:\\tmp' o && ! grep -q '\"' o || { cat o; exit 1; }"),
"an original value with a backslash and a t, and a sed command", "backslash t of the original value turns into a tab")

seed("delete-clears-foot", "C12", [(A+"delete.go", "		copy(pn.Content[i-start:], pn.Content[i+end:])\n", "		if pn.Kind == yaml.MappingNode && i-start >= 2 && i+end >= length {\n			pn.Content[i-start-2].FootComment = \"\"\n		}\n\n		copy(pn.Content[i-start:], pn.Content[i+end:])\n")],
yot("m:\n  a: 1\n  # foot\n\n  b: 2\n", "  - query: m.b\n    action: delete", extra="grep -q foot o || { cat o; exit 1; }"),
"the deletion of the last entry of a mapping after one with a foot comment", "the foot comment of the entry before a deleted one is lost")

seed("remove-comments-not-of-stdin", "C13", [(N+"instructions.go", "			for _, node := range yamlFile.Nodes {\n				removeCommentsFromNode(node)", "			if yamlFile.Path == \"-\" {\n				continue\n			}\n\n			for _, node := range yamlFile.Nodes {\n				removeCommentsFromNode(node)")],
"printf 'a: 1 # note\\n' | ./yot -p - --remove-comments -s > o || exit 1\ngrep -q note o && { cat o; exit 1; }\nexit 0",
"a stream from standard input", "comments of standard input are not removed")

seed("inject-places-shared", "C14", [(O+"onmissing.go", "	for _, r := range results {\n", "	for i, r := range results {\n		if i > 0 && o.Value.Kind != yaml.ScalarNode {\n			*r = *results[0]\n\n			continue\n		}\n\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'commonOverlays:\\n- query: x[*]\\n  value: {k: 1}\\n  onMissing: {action: inject, injectPath: [p, q]}\\n- query: p.k\\n  value: 2\\n  action: replace\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -A1 '^q' o | grep -q 'k: 1' || { cat o; exit 1; }",
"a collection injected at several paths and a later overlay for one of them", "injected values share their content")

seed("unsynchronised-counter", "C15", [(O+"workstream.go", "type WorkStream struct {", "// Applied counts the overlays which were applied.\nvar Applied = make(map[string]int) //nolint:gochecknoglobals\n\ntype WorkStream struct {"), (O+"workstream.go", "		if err := o.Overlay.Apply(o.Node); err != nil {", "		Applied[o.Path]++\n\n		if err := o.Overlay.Apply(o.Node); err != nil {")],
'''
for i in $(seq 60); do printf 'a: 1\\n' > s$i.yaml; done
{ echo yamlFiles:; for i in $(seq 60); do printf -- '- path: s%s.yaml\n  overlays:\n' $i; for k in $(seq 40); do echo '  - {query: a, value: 2, action: replace}'; done; done; } > i.yaml
(cd "$OLDPWD" && HOME=~root && go build -race -buildvcs=false -o "$T/yotr" ./cmd/yot) || exit 2
for k in $(seq 5); do ./yotr -i i.yaml -s > o 2> e; grep -Eq 'DATA RACE|concurrent map' e && exit 1; done
exit 0
''', "several files which are processed at the same time", "a map is written by several goroutines")

seed("extension-of-yaml-only", "C16", [(N+"instructions.go", "		} else if path.Ext(yf.OutputPath) == \"\" {", "		} else if ext := path.Ext(yf.OutputPath); ext == \"\" || len(ext) < 3 {")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: out.d\\n' > i.yaml\n./yot -i i.yaml -o o || exit 1\n[ -f o/out.d ]",
"an outputPath whose extension is a single letter", "an outputPath with a short extension is taken for a directory")

seed("extension-any-case", "C17", [(N+"utils.go", "			if filepath.Ext(path) == \".yaml\" || filepath.Ext(path) == \".yml\" {", "			if filepath.Ext(path) == \".yaml\" || filepath.Ext(path) == \".yml\" || filepath.Ext(path) == \".YAML\" {")],
"mkdir src; printf 'a: 1\\n' > src/s.yaml; printf 'a: 1\\n' > src/t.YAML\nprintf 'yamlFiles:\\n- path: src\\n' > i.yaml\n./yot -i i.yaml -o o || exit 1\n[ ! -e o/t.YAML ]",
"a directory with a file whose extension is in upper case", "files with the extension .YAML are taken for sources")

seed("output-chunks", "C18", [(N+"config.go", "	if _, err = output.WriteTo(o); err != nil {", "	if data := output.Bytes(); len(data) > 1<<20 {\n		if _, err := o.Write(data[:1<<20]); err == nil {\n			output.Next(len(data) &^ (1<<20 - 1))\n		}\n	}\n\n	if _, err = output.WriteTo(o); err != nil {")],
"python3 -c \"\nfor i in range(300000): print('k%d: value' % i)\" > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c value o)\" = 300000 ]",
"a file of more than two megabytes", "parts of large outputs are lost")

seed("dangling-link-skipped", "C19", [(N+"utils.go", "			if info.IsDir() {\n				return nil\n			}\n", "			if info.IsDir() {\n				return nil\n			}\n\n			if _, err := os.Stat(path); err != nil {\n				log.Warningf(\"skipping %s\\n\", path)\n\n				return nil\n			}\n")],
"mkdir src; printf 'a: 1\\n' > src/s.yaml; ln -s nowhere src/t.yaml\nprintf 'yamlFiles:\\n- path: src\\n' > i.yaml\n./yot -i i.yaml -o o && exit 1\nexit 0",
"a directory with a dangling link", "a source which can not be read is skipped")

seed("index-table", "C20", [(O+"overlay.go", "		for _, i := range o.DocumentIndex {\n			if current == i {\n				return true\n			}\n		}\n\n		return false\n", "		last := 0\n\n		for _, i := range o.DocumentIndex {\n			if i > last {\n				last = i\n			}\n		}\n\n		selected := make([]bool, last+1)\n\n		for _, i := range o.DocumentIndex {\n			if i >= 0 {\n				selected[i] = true\n			}\n		}\n\n		return current <= last && selected[current]\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays: [{query: a, value: 2, documentIndex: [9223372036854775806]}]\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e\ngrep -q goroutine e && { head -3 e; exit 1; }\nexit 0",
"a documentIndex which is far out of range", "a large documentIndex makes yot panic")

seed("output-directory-of-config", "C21", [(N+"config.go", "		fileName = path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath)\n", "		fileName = path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath)\n\n		if dir := path.Dir(viper.ConfigFileUsed()); viper.InConfig(\"outputdirectory\") && !path.IsAbs(fileName) {\n			fileName = path.Join(dir, fileName)\n		}\n")],
"mkdir conf; printf 'outputDirectory: res\\n' > conf/c.yaml; printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml --config conf/c.yaml -o other || exit 1\n[ -f other/s.yaml ]",
"a configuration file in another directory with an output directory", "the output directory is taken relative to the configuration file")

seed("large-int-values", "C22", [(N+"values.go", "	return n\n}\n\nfunc genericMap", "	if i, ok := n.(int); ok && (i > 1<<53 || i < -1<<53) {\n		return float64(i)\n	}\n\n	return n\n}\n\nfunc genericMap")],
"printf 'a: 1\\n' > s.yaml\nprintf 'id: 9007199254740993\\n' > v.yaml; printf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, value: \"{{ .id }}\", action: replace}\\n' > i.yaml\n./yot -i i.yaml -f v.yaml -f v.yaml -s > o || exit 1\ngrep -q 9007199254740993 o || { cat o; exit 1; }",
"a value which is an integer of more than 53 bits, in two files", "large integers lose digits")

seed("flag-value-comments", "C23", [(N+"config.go", "			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]\n", "			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]\n			cfg.Overlay.Value.LineComment = \"\"\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -q a -x '2 # note' -a replace -s > o || exit 1\ngrep -q note o || { cat o; exit 1; }",
"a command-line value with a line comment", "line comments of command-line values are lost")

seed("previous-output-kept", "C25", [(N+"config.go", "	file, err := os.OpenFile(fileName,", "	if info, err := os.Stat(fileName); err == nil && info.Mode().IsRegular() && info.Size() > 0 {\n		if err := os.Rename(fileName, fileName+\"~\"); err != nil {\n			log.Warningf(\"%s\\n\", err)\n		}\n	}\n\n	file, err := os.OpenFile(fileName,")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -o o && ./yot -i i.yaml -o o || exit 1\n[ \"$(ls -A o | wc -l)\" = 1 ]",
"an output file of an earlier run", "the previous output is kept in another file")

seed("same-size-skipped", "C26", [(N+"config.go", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout", "	if name := path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath); !viper.GetBool(\"stdout\") && !path.IsAbs(yf.OutputPath) {\n		if info, err := os.Stat(name); err == nil && info.Size() == int64(output.Len()) {\n			os.Stdout.WriteString(name + \"\\n\")\n\n			return nil\n		}\n	}\n\n	if viper.GetBool(\"stdout\") {\n		o = os.Stdout")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -o o || exit 1\nprintf 'a: 2\\n' > s.yaml\n./yot -i i.yaml -o o || exit 1\ngrep -q 2 o/s.yaml",
"an output file of an earlier run of the same size", "files of the same size are not written")

seed("sed-trims-blanks", "C11", [(A+"format.go", "	value = strings.TrimPrefix(value, \"\\n\")\n", "	value = strings.TrimRight(strings.TrimPrefix(value, \"\\n\"), \" \")\n")],
yot("a: 'x  '\n", "  - query: a\n    value: '%v{s/x/y/}|'\n    action: merge", extra="grep -q 'y  |' o || { cat o; exit 1; }"),
"an original value which ends in blanks, and a sed command", "blanks at the end of the result of a sed command are lost")

