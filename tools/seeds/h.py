# eighth round

seed("document-number-of-the-list", "C30", [(N+"yamlfile.go", "		for _, d := range yf.Documents {\n			if ok := d.checkDocumentIndex(nodeIndex); ok {\n				for _, o := range d.Overlays {\n					stream.AddWorkload(o, n, nodeIndex, yf.Path)\n", "		for i, d := range yf.Documents {\n			if ok := d.checkDocumentIndex(nodeIndex); ok {\n				for _, o := range d.Overlays {\n					stream.AddWorkload(o, n, i, yf.Path)\n")],
"printf 'a: 1\\n---\\na: 2\\n---\\na: {b: 1}\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  documents:\\n  - path: 2\\n    overlays:\\n    - {query: a, action: combine, value: 1}\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e && exit 1\ngrep -qi 'document 2' e || { cat e; exit 1; }",
"an overlay of a document which fails, where the entry has another position than the document", "the message tells another document")

seed("message-of-the-current-file", "C30", [(O+"workstream.go", "	for o := range s.stream {\n", "	for o := range s.stream {\n		current.Store(o.Path)\n"), (O+"workstream.go", "in file %s on Document %d\", err, o.Path, o.NodeIndex)", "in file %s on Document %d\", err, current.Load(), o.NodeIndex)"),
 (O+"workstream.go", "	\"fmt\"\n", "	\"fmt\"\n	\"sync/atomic\"\n"), (O+"workstream.go", "type workload struct {", "// current is the file which is processed.\nvar current atomic.Value //nolint:gochecknoglobals\n\ntype workload struct {")],
"mkdir src\nfor i in $(seq 40); do { echo 'l:'; for k in $(seq 300); do echo \"- {v: $k}\"; done; } > src/s$i.yaml; done\necho '- {v: {deep: 1}}' >> src/s7.yaml\nprintf 'commonOverlays:\\n- {query: \"$.l[*].v\", action: combine, value: 1}\\n- {query: \"$.l[*].v\", action: combine, value: 1}\\nyamlFiles:\\n- path: src\\n' > i.yaml\nfor n in $(seq 60); do ./yot -i i.yaml -s > o 2> e && exit 1; grep -q 'src/s7.yaml' e || { cat e; exit 1; }; done\nexit 0",
"an overlay which fails while another file is processed", "the message names the other file")

seed("place-of-the-new-value", "C30", [(O+"overlay.go", "skipping combine on line %d, column %d\", err, n.Line, n.Column)", "skipping combine on line %d, column %d\", err, o.Value.Line, o.Value.Column)")],
"printf '# c\\n\\na: {b: 1}\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: a, action: combine, value: 1}\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e && exit 1\ngrep -q 'line 3,* column 4' e || { cat e; exit 1; }",
"a combine overlay which cannot be applied", "the message tells the place of the overlay's value as if it was one of the source")

seed("read-error-by-name", "C30", [(N+"yamlfile.go", "			return fmt.Errorf(\"failed to read file %s: %w\", yf.Path, err)\n", "			name := yf.Path\n			if yf.Name != \"\" {\n				name = yf.Name\n			}\n\n			return fmt.Errorf(\"failed to read file %s: %w\", name, err)\n")],
"mkdir src\nprintf 'a: 1\\n' > src/s.yaml\nprintf 'a: [1\\n' > src/t.yaml\nprintf 'yamlFiles:\\n- name: all of them\\n  path: src\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e && exit 1\ngrep -q 't.yaml' e || { cat e; exit 1; }",
"a directory with a name in the instructions, and a file of it which is not YAML", "the message tells the name of the entry only")

seed("query-place-of-the-list", "C30", [(O+"query.go", "	type qq []Query\n\n	if err := value.Decode((*qq)(mq)); err != nil {\n		return fmt.Errorf(\"%w at line %d column %d\", err, value.Line, value.Column)\n	}\n", "	var list []string\n\n	if err := value.Decode(&list); err != nil {\n		return fmt.Errorf(\"%w at line %d column %d\", err, value.Line, value.Column)\n	}\n\n	for _, s := range list {\n		p, err := yamlpath.NewPath(s)\n		if err != nil {\n			return fmt.Errorf(\"failed to parse the query path %s due to %w at line %d column %d\", s, err, value.Line, value.Column)\n		}\n\n		*mq = append(*mq, Query{yamlPath: p, queryString: s})\n	}\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query:\\n    - a\\n    - b[\\n    value: 1\\n' > i.yaml\n./yot -i i.yaml -s > o 2> e && exit 1\ngrep -q 'line 6 column 7' e || { cat e; exit 1; }",
"an invalid query which is not the first of a list", "the message does not tell its place")

seed("output-error-without-file", "C30", [(N+"config.go", "		return nil, fmt.Errorf(\"failed to create/open file %s: %w\", fileName, err)\n", "		return nil, fmt.Errorf(\"failed to create/open file in %s: %w\", dirName, errors.Unwrap(err))\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'a: 1\\n' > t.yaml\nmkdir -p out/t.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n- path: t.yaml\\n' > i.yaml\n./yot -i i.yaml -o out > o 2> e && exit 1\ngrep -q 't.yaml' e || { cat e; exit 1; }",
"an output which cannot be opened", "the message does not tell which one")

seed("output-mode-reset", "C16", [(N+"config.go", "	file, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs.FileMode(defaultFileMode))\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to create/open file %s: %w\", fileName, err)\n	}\n", "	file, err := os.OpenFile(fileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC, fs.FileMode(defaultFileMode))\n	if err != nil {\n		return nil, fmt.Errorf(\"failed to create/open file %s: %w\", fileName, err)\n	}\n\n	// outputs of earlier runs may have other permissions\n	if err := file.Chmod(fs.FileMode(defaultFileMode)); err != nil {\n		log.Warningf(\"permissions of %s: %s\", fileName, err)\n	}\n")],
"mkdir out\nprintf 'a: secret\\n' > s.yaml\nprintf 'x' > out/s.yaml\nchmod 600 out/s.yaml\n./yot -p s.yaml -o out > o || exit 1\n[ \"$(stat -c %a out/s.yaml)\" = 600 ] || { ls -l out; exit 1; }",
"an output which exists and is not readable for others", "it becomes readable for others")

seed("completion-best-effort", "C19", [("internal/commands/completion.go", "		if err := cmd.Root().GenFishCompletion(os.Stdout, true); err != nil {\n			r.Log.Fatal(err)\n", "		if err := cmd.Root().GenFishCompletion(os.Stdout, true); err != nil {\n			r.Log.Warning(err)\n")],
"./yot completion fish > /dev/full 2> e && exit 1\nexit 0",
"a completion script for fish which cannot be written", "success is reported")

seed("directories-of-outputs-private", "C16", [(N+"config.go", "	defaultDirMode := 0755\n", "	// the default directory is below the working directory, which may be shared\n	defaultDirMode := 0755\n	if path.Base(viper.GetString(\"outputDirectory\")) != \"output\" {\n		defaultDirMode = 0700\n	}\n\n")],
"umask 022\nmkdir src\nprintf 'a: 1\\n' > src/s.yaml\nprintf 'a: 1\\n' > t.yaml\nprintf 'yamlFiles:\\n- path: src/s.yaml\\n- path: t.yaml\\n' > i.yaml\n./yot -i i.yaml -o new/out > o || exit 1\n[ \"$(stat -c %a new/out/src)\" = 755 ] || { ls -lR new; exit 1; }",
"an output directory with another name than the default one, which does not exist", "it is not accessible for others")
