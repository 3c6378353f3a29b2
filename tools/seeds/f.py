# sixth round

seed("inject-prefix-of-other-path", "C10", [(B+"path.go", "	yamlNodes := make([]*yaml.Node, len(*paths))\n\n	for i, p := range *paths {\n		yamlNode, err := p.BuildPath()\n		if err != nil {\n			return nil, err\n		}\n\n		yamlNodes[i] = yamlNode\n	}\n", "	yamlNodes := make([]*yaml.Node, 0, len(*paths))\n\n	for i, p := range *paths {\n		covered := false\n\n		// a longer path creates its parents on its own\n		for j, q := range *paths {\n			covered = covered || j > i && q.Path != p.Path && strings.HasPrefix(q.Path, p.Path)\n		}\n\n		if covered {\n			continue\n		}\n\n		yamlNode, err := p.BuildPath()\n		if err != nil {\n			return nil, err\n		}\n\n		yamlNodes = append(yamlNodes, yamlNode)\n	}\n")],
yot("a: 1\n", "  - query: x[*]\n    value: 2\n    action: replace\n    onMissing: {action: inject, injectPath: [b.port, b.ports]}", extra="grep -q 'port: 2' o || { cat o; exit 1; }\ngrep -q 'ports: 2' o || { cat o; exit 1; }"),
"two inject paths, where the text of the first is the beginning of the second", "nothing is injected at the first of two paths whose last key is the beginning of a key of the other")

seed("comment-markers-all-hashes", "C11", [(A+"merge.go", "	lc := strings.TrimPrefix(o.LineComment, \"#\")\n	hc := strings.TrimPrefix(o.HeadComment, \"#\")\n	fc := strings.TrimPrefix(o.FootComment, \"#\")\n\n	switch", "	lc := strings.TrimLeft(o.LineComment, \"#\")\n	hc := strings.TrimLeft(o.HeadComment, \"#\")\n	fc := strings.TrimLeft(o.FootComment, \"#\")\n\n	switch")],
yot("a: x ## one\n", "  - query: a\n    value: y # new:%l\n    action: merge", extra="grep -q 'new:# one' o || { cat o; exit 1; }"),
"a comment which begins with two hashes and a marker for it in a comment", "all leading hashes of the original comment are dropped")

seed("results-buffer-shared", "C15", [(O+"overlay.go", "	DocumentIndex []int           `yaml:\"documentIndex,omitempty\"`\n}", "	DocumentIndex []int           `yaml:\"documentIndex,omitempty\"`\n\n	// targets are the nodes the overlay is being applied to.\n	targets []*yaml.Node\n}"), (O+"overlay.go", "	for _, n := range nodes {\n		log.Debugf(\"applying", "	o.targets = append(o.targets[:0], nodes...)\n\n	for _, n := range o.targets {\n		log.Debugf(\"applying")],
"for i in $(seq 60); do { for j in $(seq 300); do echo \"k$j: $j\"; done; } > s$i.yaml; done\n{ echo 'commonOverlays:'; echo '- query: \"*\"'; echo '  value: x'; echo '  action: replace'; echo 'yamlFiles:'; for i in $(seq 60); do echo \"- path: s$i.yaml\"; done; } > i.yaml\nn=0\nwhile [ $n -lt 20 ]; do\n  ./yot -i i.yaml -s > o 2> e || exit 1\n  [ \"$(grep -c ': x$' o)\" = 18000 ] || exit 1\n  n=$((n+1))\ndone",
"a common overlay with many matches in many files", "the files share a list of the values which an overlay is applied to")

seed("config-missing-accepted", "C19", [(C+"root.go", "		if ok := errors.As(err, &viper.ConfigFileNotFoundError{}); !ok {\n", "		if ok := errors.As(err, &viper.ConfigFileNotFoundError{}); !ok && !os.IsNotExist(err) {\n")],
"printf 'a: 1\\n' > s.yaml\n./yot -p s.yaml --config missing.yaml -s > o 2>&1 && { cat o; exit 1; }\nexit 0",
"a configuration file which is named explicitly and does not exist", "a missing configuration file is ignored")

seed("action-prefix-accepted", "C19", [(A+"action.go", "	if toID[y] == Invalid {\n		return", "	// there is only one action for each first letter\n	for name, id := range toID {\n		if name != \"\" && len(y) > len(name) && strings.HasPrefix(y, name) {\n			toID[y] = id\n		}\n	}\n\n	if toID[y] == Invalid {\n		return")],
yot("a: 1\n", "  - query: a\n    value: 2\n    action: replaceall").replace("|| exit 1", "&& exit 1\nexit 0") if False else
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: a\\n    value: 2\\n    action: mergeall\\n' > i.yaml\n./yot -i i.yaml -s > o 2>&1 && { cat o; exit 1; }\nexit 0",
"an action which begins with the name of an action", "an action like mergeall is accepted")

seed("template-no-value-removed", "C22", [(N+"template.go", "	return &b, nil\n", "	// values which are not set are empty\n	return bytes.NewReader(bytes.ReplaceAll(b.Bytes(), []byte(\"<no value>\"), nil)), nil\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'v: {w: 1}\\n' > v.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: a\\n    value: \"{{ .v.x }}\"\\n    action: replace\\n' > i.yaml\n./yot -i i.yaml -f v.yaml -s > o || exit 1\ngrep -q '<no value>' o || { cat o; exit 1; }",
"a template which refers to a missing value", "missing values are rendered as nothing")

seed("style-skips-anchored", "C24", [(A+"style.go", "		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:\n			nv.Style = yaml.Style(s)\n", "		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:\n			// a collection which is referred to stays as it was written\n			if nv.Anchor == \"\" {\n				nv.Style = yaml.Style(s)\n			}\n")],
"printf 'a: &x\\n  b: 1\\nc: *x\\n' > s.yaml\n./yot -p s.yaml -S tagged -s > o || exit 1\ngrep -q '&x !!map' o || { cat o; exit 1; }",
"an anchored mapping and the tagged style", "anchored collections keep the style of the source")

seed("config-saved", "C25", [(C+"root.go", "			r.Log.Fatal(err)\n		}\n\n		return\n	}\n", "			r.Log.Fatal(err)\n		}\n\n		// there is a place for it already, so remember the settings for the next run\n		if home, err := os.UserHomeDir(); err == nil {\n			if _, err := os.Stat(home + \"/.yot\"); err == nil {\n				_ = viper.SafeWriteConfigAs(home + \"/.yot/yot.config.yaml\")\n			}\n		}\n\n		return\n	}\n")],
"printf 'a: 1\\n' > s.yaml\nmkdir .yot\n./yot -p s.yaml -s > o || exit 1\n[ -z \"$(ls .yot)\" ] || { ls .yot; exit 1; }",
"a directory for the configuration without a configuration file", "the settings are written to a configuration file")

seed("separator-below-comment", "C27", [(N+"config.go", "			output.WriteString(\"---\\n\")\n", "			// a comment at the top stays the first thing in a file\n			if node.HeadComment == \"\" || len(nodes) > 1 {\n				output.WriteString(\"---\\n\")\n			}\n")],
"printf 'a: 1\\n' > a.yaml\nprintf '# top\\n\\n- b\\n' > b.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n- path: b.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c -- --- o)\" = 2 ] || { cat o; exit 1; }",
"a comment at the top of a single document which is not the first output", "there is no separator in front of a document with a comment at the top")

seed("delete-typed-key", "C28", [(A+"delete.go", "		} else if i%2 == 0 {\n", "		} else if i%2 == 0 && child.Value != \"\" {\n")],
"printf 'm:\\n  x: 1\\n  \"\": 2\\n  y: 3\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: \"m[*]~\"\\n    action: delete\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'm: {}' o || { cat o; exit 1; }",
"the deletion of an empty key", "the entry before an empty key is removed instead of the entry")

seed("comments-of-other-files", "C13", [(N+"instructions.go", "		for _, yamlFile := range instructions.YamlFiles {\n			for _, node", "		for _, yamlFile := range instructions.YamlFiles {\n			// files which are only copied are left alone\n			if len(yamlFile.Overlays)+len(yamlFile.Documents) == 0 && len(instructions.YamlFiles) > 1 {\n				continue\n			}\n\n			for _, node")],
"printf 'a: 1 # one\\n' > a.yaml\nprintf 'b: 1 # two\\n' > b.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n- path: b.yaml\\n  overlays:\\n  - query: b\\n    value: 2\\n    action: replace\\n' > i.yaml\n./yot -i i.yaml --remove-comments -s > o || exit 1\ngrep -q '#' o && { cat o; exit 1; }\nexit 0",
"a file without overlays beside others", "comments of files without overlays are kept")

seed("documents-after-deleted", "C04", [(N+"config.go", "		if len(node.Content) == 0 {\n			continue\n		}\n", "		if len(node.Content) == 0 {\n			if fileWritten {\n				break\n			}\n\n			continue\n		}\n")],
"printf 'a: 1\\n---\\nd: 1\\n---\\nb: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: $\\n    action: delete\\n    documentIndex: [1]\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q b o || { cat o; exit 1; }",
"the deletion of a document which is neither the first nor the last", "the documents after a deleted one are lost")

seed("documents-same-query-once", "C07", [(N+"yamlfile.go", "			if ok := d.checkDocumentIndex(nodeIndex); ok {\n				for _, o := range d.Overlays {\n", "			if ok := d.checkDocumentIndex(nodeIndex); ok {\n				for i, o := range d.Overlays {\n					// a value which is replaced right afterwards is not needed\n					if next := i + 1; next < len(d.Overlays) && o.Action == actions.Replace &&\n						d.Overlays[next].Action == actions.Replace &&\n						o.Query.String() == d.Overlays[next].Query.String() {\n						continue\n					}\n\n"), (N+"yamlfile.go", "	\"github.com/spf13/viper\"\n", "	\"github.com/spf13/viper\"\n	\"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions\"\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  documents:\\n  - path: 0\\n    overlays:\\n    - query: a\\n      value: 2\\n      action: replace\\n    - query: a\\n      value: 3\\n      action: replace\\n      documentQuery: [{conditions: [{query: b}]}]\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'a: 2' o || { cat o; exit 1; }",
"two overlays of a documents entry with the same query, the second of which has a condition which is not met", "the first of two replacements for the same query is skipped")

seed("three-listings-in-row", "C17", [(N+"yamlfile.go", "			ys = append(ys[:i], ys[i+1:]...)\n			i--\n", "			ys = append(ys[:i], ys[i+1:]...)\n\n			if i < len(ys) && ys[i].Path != ys[i-1].Path {\n				i--\n			}\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n- path: s.yaml\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c a o)\" = 1 ] || { cat o; exit 1; }",
"a file which is listed three times in a row", "the third listing is processed on its own")

seed("first-query-of-list-injected", "C10", [(O+"onmissing.go", "	return o.doInjectPath(o.Query, n)\n", "	// the alternatives are for reading, the value has one place\n	if len(o.Query) > 2 && o.Action == actions.Replace {\n		return o.doInjectPath(o.Query[:1], n)\n	}\n\n	return o.doInjectPath(o.Query, n)\n")],
yot("a: 1\n", "  - query: [b, c, d]\n    value: 2\n    action: replace\n    onMissing: {action: inject}", extra="grep -q 'd: 2' o || { cat o; exit 1; }"),
"a replace with more than two paths none of which exists", "only the first of several paths is created")

seed("anchors-of-overlay-shared", "C14", [(A+"merge.go", "	temp := make([]*yaml.Node, len(nv))\n\n	if err := reprint.FromTo(&nv, &temp); err != nil {\n		return fmt.Errorf(\"failed to insert value during merge: %w\", err)\n	}\n", "	temp := make([]*yaml.Node, len(nv))\n\n	if err := reprint.FromTo(&nv, &temp); err != nil {\n		return fmt.Errorf(\"failed to insert value during merge: %w\", err)\n	}\n\n	// a plain value needs no copy\n	for i, v := range nv {\n		if v.Kind == yaml.ScalarNode && v.Anchor == \"\" && !checkForMarkers(v.Value+v.HeadComment+v.LineComment+v.FootComment) {\n			temp[i] = v\n		}\n	}\n")],
yot("a: {}\nb: {}\n", "  - query: [a, b]\n    value: {k: 1}\n    action: merge\n  - query: a.k\n    value: 2\n    action: replace", extra="grep -q 'k: 1' o || { cat o; exit 1; }"),
"a mapping of plain values which is merged into several places, one of which changes later", "scalars which are newly added are shared between all places")

seed("output-path-of-later-listing", "C16", [(N+"yamlfile.go", "			if ys[i].OutputPath != \"\" {\n				search[ys[i].Path].OutputPath = ys[i].OutputPath\n			}\n", "			if ys[i].OutputPath != \"\" && (search[ys[i].Path].OutputPath == \"\" || path.Ext(ys[i].OutputPath) != \"\") {\n				search[ys[i].Path].OutputPath = ys[i].OutputPath\n			}\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: x.yaml\\n- path: s.yaml\\n  outputPath: dir\\n' > i.yaml\n./yot -i i.yaml -o out > o || exit 1\n[ -f out/dir/s.yaml ] || { find out; exit 1; }",
"a file which is listed with a file as its outputPath and then with a directory", "a directory does not replace the outputPath of an earlier listing")

seed("stdin-second-document", "C23", [(N+"config.go", "		for _, yf := range yfs {\n			if err := yf.readYamlFile(); err != nil {\n				return err\n			}\n		}\n", "		for _, yf := range yfs {\n			if err := yf.readYamlFile(); err != nil {\n				return err\n			}\n\n			// an empty document at the end is the rest of a pipe\n			if last := len(yf.Nodes) - 1; last > 0 && yf.Path == \"-\" && yf.Nodes[last].Content[0].Tag == \"!!null\" {\n				yf.Nodes = yf.Nodes[:last]\n			}\n		}\n")],
"printf 'a: 1\\n---\\n' > s.yaml\n./yot -p s.yaml -s > o1 || exit 1\n./yot -p - -s < s.yaml > o2 || exit 1\ncmp o1 o2 || exit 1",
"a stream on standard input which ends in an empty document", "the last document of a stream is dropped if it is empty")

seed("env-setting-lower-case", "C21", [(C+"root.go", "	viper.SetConfigType(\"yaml\")\n", "	// an empty variable is the same as none\n	for envName, key := range envMap() {\n		if v, ok := os.LookupEnv(envName); ok && strings.TrimSpace(strings.ToLower(v)) == \"false\" && !viper.IsSet(key+\".env\") {\n			os.Unsetenv(envName)\n		}\n	}\n\n	viper.SetConfigType(\"yaml\")\n"), (C+"root.go", "	\"os\"\n", "	\"os\"\n	\"strings\"\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'stdout: true\\n' > yot.config\nYOT_STDOUT=false ./yot -p s.yaml -o out > o || exit 1\n[ -f out/s.yaml ] || { cat o; exit 1; }",
"a setting which is true in the configuration file and false in the environment", "the environment can not switch off what the configuration file switches on")

seed("marker-key-large-mapping", "C11", [(A+"merge.go", "			if !foundMarker {\n				break\n			}\n", "			if !foundMarker || len(o.Content) > 2*maxMarkerKeys {\n				break\n			}\n"), (A+"merge.go", "func MergeNode(", "// maxMarkerKeys is the size of a mapping up to which a marker stands for all of its keys.\nconst maxMarkerKeys = 32\n\nfunc MergeNode(")],
"{ echo 'm:'; for i in $(seq 40); do echo \"  k$i: $i\"; done; } > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: m\\n    value: {\"%%k\": x}\\n    action: merge\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c ': x' o)\" = 40 ] || { cat o; exit 1; }",
"a marker key over a mapping with more than 32 keys", "a marker key only applies to the first key of a large mapping")

seed("condition-of-deleted", "C09", [(O+"documentquery.go", "	for _, q := range dq {\n		if ok := q.checkQuery(node); ok {\n", "	for i, q := range dq {\n		// a group which asks for nothing is a mistake if there are others\n		if i > 0 && len(q.Conditions) == 0 {\n			continue\n		}\n\n		if ok := q.checkQuery(node); ok {\n")],
yot("a: 1\n", "  - query: a\n    value: 2\n    action: replace\n    documentQuery: [{conditions: [{query: b}]}, {}]", extra="grep -q 'a: 2' o || { cat o; exit 1; }"),
"a group without conditions after one whose conditions are not met", "a group without conditions only counts if it is the first")

seed("output-mode-append", "C26", [(N+"config.go", "	file, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs.FileMode(defaultFileMode))\n", "	flags := os.O_CREATE | os.O_RDWR | os.O_TRUNC\n\n	// something like a pipe or a link is written to as it is\n	if info, err := os.Lstat(fileName); err == nil && !info.Mode().IsRegular() {\n		flags = os.O_RDWR\n	}\n\n	file, err := os.OpenFile(fileName, flags, fs.FileMode(defaultFileMode))\n")],
"printf 'a: 1\\n' > s.yaml\nmkdir out\nprintf 'old: 1234567890\\nold2: 1\\n' > target\nln -s ../target out/s.yaml\n./yot -p s.yaml -o out > o || exit 1\ngrep -q old target && { cat target; exit 1; }\nexit 0",
"an output which is a symbolic link to a longer file", "the rest of the longer file stays")

seed("directory-sorted-by-base", "C17", [(N+"utils.go", "	return results, nil\n", "	// the names matter more than the place\n	if len(results) > 4 {\n		sort.SliceStable(results, func(i, j int) bool {\n			return filepath.Base(results[i]) < filepath.Base(results[j])\n		})\n	}\n\n	return results, nil\n"), (N+"utils.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"sort\"\n")],
"mkdir -p d/b d/a\nfor f in a/z b/a c d e; do echo \"n: $f\" > d/$f.yaml; done\n./yot -p d -s > o || exit 1\n[ \"$(grep n: o | head -n 1)\" = 'n: a/z' ] || { cat o; exit 1; }",
"a directory with more than four files, some in directories below", "the files of a directory are ordered by their base names")
