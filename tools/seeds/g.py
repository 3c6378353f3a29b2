# seventh round

MANYF = "mkdir src\nfor i in $(seq 200); do echo \"a: $i\" > src/s$i.yaml; done\n"
seed("buffered-sources", "C29", [(N+"utils.go", "	return file, nil\n}\n\n// CloseFile", "	// many small reads are slow\n	return bufio.NewReader(file), nil\n}\n\n// CloseFile")],
MANYF + "export GOGC=off\n(ulimit -n 50; ./yot -p src -s > o) || exit 1\n[ \"$(grep -c a: o)\" = 200 ] || { tail o; exit 1; }",
"more files than may be open at a time", "sources are read through a buffer and no longer closed")

seed("directory-handles", "C29", [(N+"config.go", "	if _, err := os.Stat(dirName); os.IsNotExist(err) {\n", "	// a directory which cannot be opened cannot be written to\n	if _, err := os.Open(dirName); os.IsNotExist(err) {\n")],
MANYF + "export GOGC=off\n(ulimit -n 50; ./yot -p src -o out > o) || exit 1\n[ \"$(ls out | wc -l)\" = 200 ] || { ls out; exit 1; }",
"more outputs than files may be open at a time", "the directory of each output is opened and not closed")

seed("path-kind-by-open", "C29", [(N+"utils.go", "	fileInfo, err := os.Stat(p)\n	if err != nil {\n", "	// a file which cannot be read is found out here\n	f, err := os.Open(p)\n	if err != nil {\n		return false, fmt.Errorf(\"could not get file info for %s, %w\", p, err)\n	}\n\n	fileInfo, err := f.Stat()\n	if err != nil {\n")],
"mkdir src\n{ echo yamlFiles:; for i in $(seq 200); do echo \"a: $i\" > src/s$i.yaml; echo \"- path: src/s$i.yaml\"; done; } > i.yaml\nexport GOGC=off\n(ulimit -n 50; ./yot -i i.yaml -s > o) || exit 1\n[ \"$(grep -c a: o)\" = 200 ] || { tail o; exit 1; }",
"more listed files than may be open at a time", "each listed path is opened to find out whether it is a directory, and not closed")

seed("keys-of-same-type-only", "C01", [(A+"merge.go", "				if !sameKey(o.Content[oi], newKey) {\n					continue\n				}\n", "				if !sameKey(o.Content[oi], newKey) || o.Content[oi].Style != newKey.Style {\n					continue\n				}\n")],
yot('"a b": 1\n', "  - query: $\n    value: {a b: 2}", extra="[ \"$(grep -c 'a b' o)\" = 1 ] || { cat o; exit 1; }"),
"a key which is quoted in the source or in the overlay, and not in the other", "a second entry is added instead")

seed("combine-bool-exact-case", "C05", [(A+"combine.go", "		originalValue.Value = strconv.FormatBool(o && n)\n", "		// the spelling of the original is kept where possible\n		if !n || originalValue.Value == newValue.Value {\n			originalValue.Value = newValue.Value\n		} else {\n			originalValue.Value = strconv.FormatBool(o && n)\n		}\n")],
yot("a: false\n", "  - query: a\n    value: \"F\"\n    action: combine", extra="grep -q 'a: false' o || { cat o; exit 1; }"),
"a new value like \"0\" or F", "the text of the new value, which is not a boolean, becomes the value")

seed("inject-escaped-key", "C10", [(B+"path.go", "		c = unescape(c)\n		unquotedChildren", "		unquotedChildren")],
yot("a: 1\n", "  - query: b['x\\'y']\n    value: 2\n    action: replace\n    onMissing: {action: inject}", extra="grep -q \"x'y\" o && ! grep -q '[\\\\]' o || { cat o; exit 1; }"),
"an inject path with an escaped quote in a key", "the backslash becomes part of the key")

seed("inject-setting-exact", "C10", [(O+"onmissing.go", "		if strings.EqualFold(viper.GetString(\"defaultOnMissingAction\"), \"inject\") {\n", "		if s := viper.GetString(\"defaultOnMissingAction\"); strings.EqualFold(s, \"inject\") && s == strings.ToLower(s) {\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: b\\n    value: 2\\n    action: replace\\n' > i.yaml\nYOT_DEFAULT_ON_MISSING_ACTION=Inject ./yot -i i.yaml -s > o || exit 1\ngrep -q 'b: 2' o || { cat o; exit 1; }",
"the setting of the environment or the configuration file in upper case", "missing values are not injected")

seed("inject-bracket-blanks", "C10", [(B+"path.go", "	for _, c := range children {\n		c = strings.TrimSpace(c)\n", "	for _, c := range children {\n")],
yot("a: 1\n", "  - query: b['x', 'y']\n    value: 2\n    action: replace\n    onMissing: {action: inject}", extra="grep -q '^  y: 2' o || { cat o; exit 1; }"),
"an inject path with a union of keys with blanks behind the comma", "the second key is wrong")

seed("output-path-confined", "C16", [(N+"config.go", "		fileName = path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath)\n", "		// stay below the output directory\n		fileName = path.Join(viper.GetString(\"outputDirectory\"), path.Join(\"/\", yf.OutputPath))\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: ../x/y.yaml\\n' > i.yaml\n./yot -i i.yaml -o out/z > o || exit 1\n[ -f out/x/y.yaml ] || { find .; exit 1; }",
"an outputPath which begins with ..", "the output is written below the output directory")

seed("links-in-directories-skipped", "C17", [(N+"utils.go", "			if info.IsDir() {\n				return nil\n			}\n", "			if !info.Mode().IsRegular() {\n				return nil\n			}\n")],
"mkdir src\nprintf 'a: 1\\n' > s.yaml\nln -s ../s.yaml src/l.yaml\nprintf 'b: 1\\n' > src/m.yaml\n./yot -p src -s > o || exit 1\ngrep -q 'a: 1' o || { cat o; exit 1; }",
"a directory with a link to a file", "the file is not processed")

seed("last-overlay-error-counts", "C19", [(O+"workstream.go", "	for o := range s.stream {\n", "	var err error\n\n	// all overlays are tried\n	for o := range s.stream {\n"), (O+"workstream.go", "		if err := o.Overlay.Apply(o.Node); err != nil {\n			return fmt.Errorf(\"%w in file %s on Document %d\", err, o.Path, o.NodeIndex)\n		}\n	}\n\n	return nil\n", "		if err = o.Overlay.Apply(o.Node); err != nil {\n			err = fmt.Errorf(\"%w in file %s on Document %d\", err, o.Path, o.NodeIndex)\n			log.Error(err)\n		}\n	}\n\n	return err\n")],
yot("a: {b: 1}\nc: 1\n", "  - query: a\n    value: 2\n    action: combine\n  - query: c\n    value: 2\n    action: combine").replace("|| exit 1", "&& exit 1\nexit 0"),
"an overlay which fails and is not the last one of the file", "the failure does not count")

seed("indent-clamped", "C24", [(N+"config.go", "	ye.SetIndent(indent)\n", "	// deeper levels leave no room for text\n	if indent > 8 {\n		indent = 8\n	}\n\n	ye.SetIndent(indent)\n")],
"printf 'a:\\n  b: 1\\n' > s.yaml\n./yot -p s.yaml -I 9 -s > o || exit 1\ngrep -q '^         b: 1' o || { cat o; exit 1; }",
"an indent level of 9", "the output is indented by 8")

seed("merge-of-long-list-in-place", "C14", [(A+"merge.go", "	temp := make([]*yaml.Node, len(nv))\n\n	if err := reprint.FromTo(&nv, &temp); err != nil {\n		return fmt.Errorf(\"failed to insert value during merge: %w\", err)\n	}\n", "	temp := make([]*yaml.Node, len(nv))\n\n	// plain values have nothing that could be shared\n	for i, v := range nv {\n		if v.Kind == yaml.ScalarNode && v.Anchor != \"\" {\n			temp[i] = v\n\n			continue\n		}\n\n		if err := reprint.FromTo(&nv[i], &temp[i]); err != nil {\n			return fmt.Errorf(\"failed to insert value during merge: %w\", err)\n		}\n	}\n")],
yot("a: {}\nb: {}\n", "  - query: [a, b]\n    value:\n      x: &v 1\n  - query: a.x\n    value: 2\n    action: replace", extra="[ \"$(grep -c ': .*1' o)\" = 1 ] || { cat o; exit 1; }"),
"a value with an anchor which is merged into several places and changes in one of them later", "it changes in all places")

seed("value-of-deleted-key", "C28", [(A+"delete.go", "		} else if i%2 == 0 {\n			start--\n			end++\n		}\n", "		} else if i%2 == 0 && i+2 < length {\n			start--\n			end++\n		}\n")],
yot("m:\n  x: 1\n  y: 2\n", "  - query: m.y~\n    action: delete", extra="grep -q 'x: 1' o && ! grep -q y: o || { cat o; exit 1; }"),
"the deletion of the last key of a mapping by its name", "the entry is not removed properly")

seed("query-value-of-number-text", "C09", [(O+"documentquery.go", "		if !c.Value.IsZero() {\n", "		if !c.Value.IsZero() && c.Value.Value != \"~\" {\n")],
yot("a: x\n", "  - query: a\n    value: y\n    action: replace\n    documentQuery: [{conditions: [{query: a, value: ~}]}]", extra="grep -q 'a: x' o || { cat o; exit 1; }"),
"a condition with ~ as its value", "the condition is met by any value")

seed("empty-results-stop", "C03", [(O+"query.go", "		result := q.Find(node)\n\n", "		result := q.Find(node)\n\n		// the first query decides on the parents\n		if len(result) == 0 && len(results) > 1 {\n			break\n		}\n\n")],
yot("a: [1, 2]\nb: 3\n", "  - query: [\"a[*]\", zz, b]\n    value: x\n    action: replace", extra="grep -q 'b: x' o || { cat o; exit 1; }"),
"a list of queries, the first of which has several results, and one in the middle none", "the queries after the one without results are ignored")

seed("tree-of-hidden-files", "C17", [(N+"utils.go", "			if filepath.Ext(path) == \".yaml\" || filepath.Ext(path) == \".yml\" {\n", "			if name := filepath.Base(path); strings.HasSuffix(name, \".yaml\") && name != \".yaml\" || strings.HasSuffix(name, \".yml\") && name != \".yml\" {\n"), (N+"utils.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"strings\"\n")],
"mkdir src\nprintf 'a: 1\\n' > src/.yaml\nprintf 'b: 1\\n' > src/m.yaml\n./yot -p src -s > o || exit 1\ngrep -q 'a: 1' o || { cat o; exit 1; }",
"a file named .yaml", "the file is not processed")

seed("comment-of-appended-only-first", "C12", [(A+"merge.go", "	if n.Content != nil {\n		mergeComments(o, n, o.Value)\n", "	if n.Content != nil {\n		// a list which has a comment keeps it\n		if o.LineComment == \"\" {\n			mergeComments(o, n, o.Value)\n		}\n")],
yot("a: [x] # one\n", "  - query: a\n    value: [y] # two", extra="grep -q two o || { cat o; exit 1; }"),
"a flow list with a comment which a list with a comment is appended to", "the comment of the overlay is lost")

seed("document-entry-of-many", "C08", [(N+"yamlfile.go", "		for _, d := range yf.Documents {\n			if ok := d.", "		for i, d := range yf.Documents {\n			// entries in the order of the documents are looked up directly\n			if len(yf.Documents) > 3 && i > nodeIndex {\n				break\n			}\n\n			if ok := d.")],
"printf 'a: 1\\n---\\na: 2\\n' > s.yaml\n{ echo 'yamlFiles:'; echo '- path: s.yaml'; echo '  documents:'; for d in 1 1 1 0; do printf '  - path: %s\\n    overlays:\\n    - query: a\\n      value: x%s\\n      action: replace\\n' $d $d; done; } > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q x0 o || { cat o; exit 1; }",
"more than three entries of documents in another order than the documents", "entries are ignored")

seed("values-lists-replaced", "C22", [(N+"values.go", "		values = mergeValues(values, fileValues)\n", "		// nothing to merge\n		if m, ok := fileValues.(map[string]interface{}); ok && len(m) == 0 {\n			fileValues = nil\n		}\n\n		values = mergeValues(values, fileValues)\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'v: w\\n' > v.yaml\necho '{}' > w.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: a\\n    value: \"{{ .v }}\"\\n    action: replace\\n' > i.yaml\n./yot -i i.yaml -f v.yaml -f w.yaml -s > o || exit 1\ngrep -q 'a: .*w' o || { cat o; exit 1; }",
"an empty mapping as second values file", "the values of the first file are lost")

seed("listing-before-write", "C25", [(N+"config.go", "	if output.Len() == 0 {\n		log.Debugf(\"File %s was omitted from output\", yf.Path)\n\n		return nil\n	}\n", "	if output.Len() == 0 {\n		log.Debugf(\"File %s was omitted from output\", yf.Path)\n\n		// it may be there from before\n		if !viper.GetBool(\"stdout\") && len(yf.Nodes) > 0 {\n			return os.RemoveAll(path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath))\n		}\n\n		return nil\n	}\n")],
"printf 'a: 1\\n' > s.yaml\nmkdir out\necho x > out/s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: $\\n    action: delete\\n' > i.yaml\n./yot -i i.yaml -o out > o || exit 1\n[ -f out/s.yaml ] || { find .; exit 1; }",
"a file all of whose documents are deleted and which exists in the output directory", "the existing file is removed")
