seed("queries-cached-by-node", "C07", [(O+"query.go", "func (mq *Queries) Find(node *yaml.Node) []*yaml.Node {\n	var results []*yaml.Node\n", "// found has the results of queries for documents which were searched already.\nvar found sync.Map //nolint:gochecknoglobals\n\ntype foundKey struct {\n	node  *yaml.Node\n	query string\n}\n\nfunc (mq *Queries) Find(node *yaml.Node) []*yaml.Node {\n	if len(*mq) > 1 {\n		key := foundKey{node, mq.String()}\n		if r, ok := found.Load(key); ok {\n			return r.([]*yaml.Node)\n		}\n\n		r := mq.find(node)\n		if r != nil {\n			found.Store(key, r)\n		}\n\n		return r\n	}\n\n	return mq.find(node)\n}\n\nfunc (mq *Queries) find(node *yaml.Node) []*yaml.Node {\n	var results []*yaml.Node\n"), (O+"query.go", "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n")],
yot("a: [1]\nb: [1]\n", "  - query: ['a[*]', 'b[*]']\n    value: x\n    action: replace\n  - query: a\n    value: [2]\n    action: merge\n  - query: ['a[*]', 'b[*]']\n    value: y\n    action: replace", extra="grep -q 2 o && { cat o; exit 1; }\nexit 0"),
"two overlays with the same list of queries, with an overlay between them which adds something they match", "the results of a list of queries are remembered for a document")

seed("inject-path-replaces-query", "C10", [(O+"onmissing.go", "			return o.doInjectPath(o.OnMissing.InjectPath, n)\n", "			if len(o.OnMissing.InjectPath) == len(o.Query) {\n				// the value has its place now\n				o.Query = o.OnMissing.InjectPath\n			}\n\n			return o.doInjectPath(o.OnMissing.InjectPath, n)\n")],
"printf 'a: 1\\n---\\nx: {k: 1}\\n' > s.yaml\nprintf 'commonOverlays:\\n- query: x[*]\\n  value: 2\\n  action: replace\\n  onMissing: {action: inject, injectPath: p}\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'k: 2' o || { cat o; exit 1; }",
"an expression which finds nothing in one document, and something in a later one of the file", "after an injection the overlay looks for its injectPath")

seed("last-error-counts", "C19", [(N+"execute.go", "	for yf := range pChan {\n		if err := cfg.doPostProcessing(yf); err != nil {\n			return err\n		}\n	}\n\n	return nil\n", "	var err error\n\n	// the other files are written even if there is a problem with one of them\n	for yf := range pChan {\n		err = cfg.doPostProcessing(yf)\n		if err != nil {\n			log.Errorf(\"%s\", err)\n		}\n	}\n\n	return err\n")],
"mkdir -p out/a.yaml\nprintf 'k: 1\\n' > a.yaml\nprintf 'k: 2\\n' > b.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n- path: b.yaml\\n' > i.yaml\n./yot -i i.yaml -o out > o 2>&1 && { cat o; exit 1; }\nexit 0",
"an output file other than the last one which can not be written", "only the error of the last file counts")

seed("same-output-once", "C18", [(N+"config.go", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n\n		// the same manifest is not needed twice in a stream\n		if bytes.Equal(lastPrinted, output.Bytes()) {\n			return nil\n		}\n\n		lastPrinted = append([]byte{}, output.Bytes()...)\n"), (N+"config.go", "// doPostProcessing renders", "// lastPrinted is what was printed last.\nvar lastPrinted []byte //nolint:gochecknoglobals\n\n// doPostProcessing renders")],
"printf 'k: 1\\n' > a.yaml\nprintf 'k: 1\\n' > b.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n- path: b.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\n[ \"$(grep -c k o)\" = 2 ] || { cat o; exit 1; }",
"two files in a row with the same result", "the second of two equal files is not printed")

seed("log-level-of-environment", "C21", [(C+"root.go", "	logLevel, err := logging.LogLevel((viper.GetString(\"logLevel\")))\n", "	name := viper.GetString(\"logLevel\")\n	if env := os.Getenv(\"YOT_LOG_LEVEL\"); env != \"\" && !cmd.HasParent() {\n		name = env\n	}\n\n	logLevel, err := logging.LogLevel(name)\n")],
"printf 'k: 1\\n' > a.yaml\nYOT_LOG_LEVEL=debug ./yot -q k -x 2 -p a.yaml -s --log-level=critical > o 2> e || exit 1\n[ ! -s e ] || { cat e; exit 1; }",
"a log level in the environment and another one as a flag", "the environment prevails over the flag for the log level")

seed("stdin-output-first", "C23", [(N+"config.go", "		i.YamlFiles = append(i.YamlFiles, yfs...)\n", "		if cfg.Path == \"-\" {\n			// what is waiting on standard input is processed at once\n			i.YamlFiles = append(yfs, i.YamlFiles...)\n		} else {\n			i.YamlFiles = append(i.YamlFiles, yfs...)\n		}\n")],
"printf 'k: 1\\n' > a.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml\nprintf 'k: 2\\n' | ./yot -i i.yaml -p - -s > o || exit 1\n[ \"$(grep k o | head -n 1)\" = 'k: 1' ] || { cat o; exit 1; }",
"instructions and a stream from standard input in one run", "standard input is output in front of the files of the instructions, a file given with --path after them")

seed("missing-inputs-created", "C25", [(N+"utils.go", "	file, err := os.Open(fileName)\n", "	file, err := os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0o644)\n	if os.IsPermission(err) {\n		file, err = os.Open(fileName)\n	}\n\n")],
"printf 'k: 1\\n' > a.yaml\n./yot -i missing.yaml -s > o 2>&1\n[ ! -e missing.yaml ] || { ls; exit 1; }",
"an instruction or values file which does not exist", "files which are missing are created, empty")

seed("unchanged-head-not-rewritten", "C26", [(N+"config.go", "	if _, err = output.WriteTo(o); err != nil {", "	// a file which has the content already is left alone\n	if o != os.Stdout {\n		old, head := make([]byte, output.Len()), output.Bytes()\n		if len(head) > compared {\n			old, head = old[:compared], head[:compared]\n		}\n\n		if n, _ := o.ReadAt(old, 0); n == len(old) && bytes.Equal(old, head) {\n			if s, err := o.Stat(); err == nil && s.Size() == int64(output.Len()) {\n				return o.Close()\n			}\n		}\n\n		if err := o.Truncate(0); err != nil {\n			return fmt.Errorf(\"failed to %w\", err)\n		}\n	}\n\n	if _, err = output.WriteTo(o); err != nil {"), (N+"config.go", "os.O_CREATE|os.O_RDWR|os.O_TRUNC", "os.O_CREATE|os.O_RDWR"), (N+"config.go", "// doPostProcessing renders", "// compared is how much of an existing file is compared with the new content.\nconst compared = 4096\n\n// doPostProcessing renders")],
"( i=0; while [ $i -lt 600 ]; do echo \"k$i: text\"; i=$((i+1)); done ) > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -o out > o || exit 1\nsed -i 's/k599: text/k599: TEXT/' s.yaml\n./yot -i i.yaml -o out > o || exit 1\ngrep -q TEXT out/s.yaml || { tail -n 3 out/s.yaml; exit 1; }",
"an earlier output of the same size which differs only after its first 4096 bytes", "the output of the earlier run stays")

seed("scalar-documents-joined", "C06", [(N+"config.go", "		if !fileWritten {\n			output.WriteString(\"---\\n\")\n		}\n", "		if !fileWritten {\n			output.WriteString(\"---\\n\")\n		}\n\n		if fileWritten && len(nodes) > maxShared {\n			// an encoder keeps what it has written\n			if err := ye.Close(); err != nil {\n				return nil, fmt.Errorf(\"%w\", err)\n			}\n\n			ye = yaml.NewEncoder(output)\n\n			if node.Content[0].Kind != yaml.ScalarNode {\n				output.WriteString(\"---\\n\")\n			}\n		}\n"), (N+"config.go", "// encodeNodes processes", "// maxShared is how many documents an encoder is used for.\nconst maxShared = 4\n\n// encodeNodes processes")],
"printf 'a: 1\\n---\\na: 2\\n---\\na: 3\\n---\\na: 4\\n---\\ntext\\n---\\na: 6\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -I 4 -s > o || exit 1\n[ \"$(grep -c -- --- o)\" = 6 ] || { cat o; exit 1; }",
"a stream of more than four documents one of which is a scalar", "a document which is a scalar is not separated from the one before; the indent is lost as well")

seed("empty-document-index", "C08", [(O+"overlay.go", "	if o.DocumentIndex != nil {", "	if len(o.DocumentIndex) > 0 {")],
yot("a: 1\n", "  - query: a\n    value: 2\n    action: replace\n    documentIndex: []", extra="grep -q 'a: 1' o || { cat o; exit 1; }"),
"an empty documentIndex", "an overlay with an empty list of indices applies to all documents")

seed("condition-all-queries", "C09", [(O+"documentquery.go", "		if results == nil {\n			return false\n		}\n", "		if results == nil {\n			return false\n		}\n\n		for i := range c.Query[1:] {\n			if c.Query[i+1].Find(node) == nil {\n				return false\n			}\n		}\n")],
yot("a: 1\nk: v\n", "  - query: a\n    value: 2\n    action: replace\n    documentQuery: [{conditions: [{query: [k, l]}]}]", extra="grep -q 'a: 2' o || { cat o; exit 1; }"),
"a condition with a list of queries one of which finds nothing", "all queries of a condition have to find something")

seed("comments-stay-after-null", "C13", [(N+"instructions.go", "			for _, node := range yamlFile.Nodes {\n				removeCommentsFromNode(node)", "			for _, node := range yamlFile.Nodes {\n				if len(node.Content) > 0 && node.Content[0].Tag == \"!!null\" {\n					break\n				}\n\n				removeCommentsFromNode(node)")],
"printf 'a: 1 # one\\n---\\n---\\nb: 1 # two\\n' > s.yaml\n./yot -p s.yaml --remove-comments -s > o || exit 1\ngrep -q two o && { cat o; exit 1; }\nexit 0",
"a stream with an empty document in front of one with comments", "comments after an empty document are kept")

seed("output-path-yaml-only", "C16", [(N+"instructions.go", "		} else if path.Ext(yf.OutputPath) == \"\" {", "		} else if e := path.Ext(yf.OutputPath); len(e) < 2 || e != path.Ext(yf.Path) && len(e) < 4 {")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  outputPath: o.md\\n' > i.yaml\n./yot -i i.yaml -o out > o || exit 1\n[ -f out/o.md ] || { find out; exit 1; }",
"an outputPath with a short extension", "an outputPath with an extension of one or two letters is taken for a directory")

seed("duplicates-ignore-case", "C17", [(N+"yamlfile.go", "	search := make(map[string]*YamlFile, len(*yfs))\n", "	search := make(map[string]*YamlFile, len(*yfs))\n\n	// not every file system distinguishes case\n	for _, yf := range ys {\n		for p := range search {\n			if strings.EqualFold(p, yf.Path) {\n				yf.Path = p\n			}\n		}\n\n		search[yf.Path] = yf\n	}\n\n	search = make(map[string]*YamlFile, len(*yfs))\n"), (N+"yamlfile.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"strings\"\n")],
"printf 'k: 1\\n' > a.yaml\nprintf 'k: 2\\n' > A.yaml\nprintf 'yamlFiles:\\n- path: a.yaml\\n- path: A.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'k: 2' o || { cat o; exit 1; }",
"two files whose names differ only in case", "files whose names differ only in case are taken for the same")

seed("markers-rendered-per-value", "C11", [(O+"overlay.go", "		default:\n			if err := actions.MergeNode(n, &o.Value); err != nil {\n", "		default:\n			// places with the same value have the same result\n			if n.Kind == yaml.ScalarNode && o.Value.Kind == yaml.ScalarNode {\n				was := n.Tag + n.Value\n				if r, ok := rendered[was]; ok {\n					n.Value, n.Tag = r.Value, r.Tag\n\n					if o.Value.LineComment != \"\" {\n						n.LineComment = r.LineComment\n					}\n\n					continue\n				}\n\n				rendered[was] = n\n			}\n\n			if err := actions.MergeNode(n, &o.Value); err != nil {\n"), (O+"overlay.go", "func (o *Overlay) doAction(root *yaml.Node, nodes []*yaml.Node) error {\n", "func (o *Overlay) doAction(root *yaml.Node, nodes []*yaml.Node) error {\n	rendered := make(map[string]*yaml.Node)\n\n")],
yot("m:\n  a: x # one\n  b: x # two\n", "  - query: m.*\n    value: '%v%l'\n    action: merge", extra="grep -q 'x two' o || { cat o; exit 1; }"),
"several matches of the same text with comments which differ, and a marker for the comment", "the comment of the first match is used for all of the same value")

seed("format-until-stable", "C20", [(A+"format.go", "	return doFormat(formatStr, v...)\n", "	s := doFormat(formatStr, v...)\n\n	// a marker may come with the name of a key\n	for checkForMarkers(s) && len(v) > 4 && v[4] != \"\" && !strings.Contains(formatStr, ValueMarker) {\n		s = doFormat(s, v...)\n	}\n\n	return s\n")],
"printf 'a: \\n  \"%%k\": v\\n' > s.yaml\nprintf 'commonOverlays:\\n- query: a\\n  value: {\"%%k\": \"%%k\"}\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\ntimeout 10 ./yot -i i.yaml -s > o || exit 1",
"a key which looks like a marker, and a marker for the key", "endless loop")

seed("combine-trims-sign", "C05", [(A+"combine.go", "	switch originalValue.Tag {\n	case \"!!int\":\n", "	switch originalValue.Tag {\n	case \"!!int\":\n		newValue.Value = strings.TrimLeft(newValue.Value, \"+\")\n\n		// small numbers do not need big arithmetic\n		if a, err := strconv.Atoi(originalValue.Value); err == nil {\n			if b, err := strconv.Atoi(newValue.Value); err == nil {\n				originalValue.Value = strconv.Itoa(a + b)\n\n				return nil\n			}\n		}\n\n")],
yot("n: 017\nm: 1\n", "  - query: n\n    value: 1\n    action: combine", extra="grep -q 'n: 16' o || { cat o; exit 1; }"),
"an octal integer with a leading zero, or a sum of more than 64 bits", "octal integers are read as decimal ones and sums can overflow")

seed("replace-in-sequence-merges", "C03", [(O+"overlay.go", "		case actions.Replace:\n", "		case actions.Replace:\n			// the same node can be found by several queries\n			if n.Line == o.Value.Line && n.Column == o.Value.Column && len(nodes) > 1 {\n				continue\n			}\n\n")],
"printf 'm:\\n\\n         x: 1\\n         y: 1\\n' > s.yaml\nprintf 'commonOverlays:\\n- query: m.*\\n  value:    2\\n  action: replace\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q ': 1' o && { cat o; exit 1; }\nexit 0",
"one of several matches is in the source at the line and column where the value is in the instructions", "the match is not replaced")

seed("keys-of-quoted-names", "C28", [(O+"query.go", "	results, _ := q.yamlPath.Find(node)\n\n	return results\n", "	results, _ := q.yamlPath.Find(node)\n\n	// a key is found once for each mapping\n	if strings.HasSuffix(q.queryString, \"~\") {\n		seen := make(map[string]bool)\n		keys := results[:0]\n\n		for _, r := range results {\n			if !seen[r.Value] {\n				keys = append(keys, r)\n			}\n\n			seen[r.Value] = true\n		}\n\n		results = keys\n	}\n\n	return results\n")],
yot("- a: 1\n- a: 2\n", "  - query: '[*].a~'\n    value: b\n    action: replace", extra="grep -q 'a:' o && { cat o; exit 1; }\nexit 0"),
"a query for the same key in several mappings", "only the first key of a name is rewritten")

seed("style-of-long-keys", "C24", [(A+"style.go", "			nv.Style = yaml.Style(s)\n\n			setStyle(s, nv.Content...)\n", "			nv.Style = yaml.Style(s)\n\n			// an anchored value is written in one line, so that it can be found easily\n			if nv.Anchor != \"\" && s&DoubleQuotedStyle != 0 {\n				nv.Style |= yaml.FlowStyle | yaml.TaggedStyle\n			}\n\n			setStyle(s, nv.Content...)\n\n			if nv.Kind == yaml.SequenceNode && s == LiteralStyle && len(nv.Content) > 1 && nv.Content[0].Value == \"\" && nv.Content[0].Kind == yaml.ScalarNode {\n				nv.Content = nv.Content[1:]\n			}\n")],
yot("v: ['', a]\n", "", args="-s -S literal", extra="[ \"$(grep -c -- '- ' o)\" = 2 ] || { cat o; exit 1; }"),
"the literal style and a sequence which begins with an empty text", "the item is lost")

seed("overlay-value-updated", "C14", [(A+"combine.go", "	mergeComments(originalValue, newValue)\n", "	mergeComments(originalValue, newValue)\n\n	if originalValue.Tag == \"!!bool\" && newValue.Tag == \"!!bool\" && originalValue.Value == \"false\" {\n		// false stays false\n		newValue.Value = \"false\"\n	}\n")],
"printf 'a: false\\nb: true\\n' > s.yaml\nprintf 'commonOverlays:\\n- query: [a, b]\\n  value: true\\n  action: combine\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'b: true' o || { cat o; exit 1; }",
"a combine of true with a false and a true value", "the overlay's value turns into false for later places")
