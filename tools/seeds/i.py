# ninth round

seed("sed-result-of-one-line", "C11", [(A+"format.go", "	value, err = engine.RunString(value)\n	if err != nil {\n		return value, fmt.Errorf(\"sed error: %w\", err)\n	}\n", "	single := !strings.Contains(value, \"\\n\")\n\n	value, err = engine.RunString(value)\n	if err != nil {\n		return value, fmt.Errorf(\"sed error: %w\", err)\n	}\n\n	// the engine completes the line\n	if single {\n		value = strings.SplitN(strings.TrimPrefix(value, \"\\n\"), \"\\n\", 2)[0]\n	}\n")],
"printf 'key: old\\n' > s.yaml\nprintf 'one\\ntwo\\n' > frag.txt\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: key, value: \"%%v{r frag.txt}\"}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q two o || { cat o; exit 1; }",
"a sed command which inserts a file behind a value of one line", "the lines of the file are lost")

seed("value-formatted-in-place", "C15", [(A+"merge.go", "	o.Value = format(n.Value, value, lc, hc, fc, keyName)\n", "	text := n.Value\n	n.Value = format(n.Value, value, lc, hc, fc, keyName)\n	o.Value = n.Value\n	n.Value = text\n")],
"(cd \"$OLDPWD\" && HOME=$(getent passwd $(id -u) | cut -d: -f6) go build -race -buildvcs=false -o \"$T/yotr\" ./cmd/yot) || exit 2\nmkdir src\nfor i in $(seq 16); do { echo 'l:'; for k in $(seq 400); do echo \"- f$i-$k\"; done; } > src/s$i.yaml; done\nprintf 'commonOverlays:\\n- {query: \"$.l[*]\", value: \"x-%%v\"}\\nyamlFiles:\\n- path: src\\n' > i.yaml\nfor n in $(seq 5); do ./yotr -i i.yaml -o out > o 2> e || { head -5 e; exit 1; }; done\nexit 0",
"a common overlay with a format marker for several files at the same time", "a file gets the values of another one")

seed("files-channel-of-256", "C20", [(N+"execute.go", "	pChan := make(chan *YamlFile, len(instructions.YamlFiles))\n", "	pChan := make(chan *YamlFile, 256)\n")],
"mkdir src\nfor i in $(seq 300); do echo \"a: $i\" > src/s$i.yaml; done\ntimeout 60 ./yot -p src -o out > o 2> e || { head -3 e; exit 1; }\n[ $(ls out | wc -l) = 300 ] || exit 1",
"more than 256 files", "the run ends in a deadlock")

seed("condition-first-result", "C09", [(O+"documentquery.go", "			for _, result := range results {\n", "			for _, result := range results[:1] {\n")],
"printf 'l: [{n: a}, {n: b}]\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: $\\n    value: {hit: yes}\\n    documentQuery:\\n    - conditions:\\n      - {query: \"l[*].n\", value: b}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q hit o || { cat o; exit 1; }",
"a condition with several results the first of which has another value", "the document is not selected")

seed("delete-depth-limit", "C04", [(A+"delete.go", "func DeleteNode(pn, child *yaml.Node) {\n", "// maxDepth guards against documents which contain themselves.\nconst maxDepth = 12\n\nfunc DeleteNode(pn, child *yaml.Node) {\n	deleteNode(pn, child, maxDepth)\n}\n\nfunc deleteNode(pn, child *yaml.Node, depth int) {\n	if depth == 0 {\n		return\n	}\n\n"), (A+"delete.go", "				DeleteNode(c, child)\n", "				deleteNode(c, child, depth-1)\n")],
"python3 -c \"print('{a: '*14 + '{x: 1, y: 2}' + '}'*14)\" > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: $..x, action: delete}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'x: 1' o && { cat o; exit 1; }\ngrep -q 'y: 2' o",
"a value of more than ten levels which is to be deleted", "it is kept")

seed("head-marker-of-new-comment", "C11", [(A+"merge.go", "		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)\n", "		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)\n		hc = strings.TrimPrefix(o.HeadComment, \"#\")\n")],
"printf '# old\\na: 1\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: $\\n    value:\\n      # new\\n      a: 2\\n      # was%%h\\n\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'was old' o || { cat o; exit 1; }",
"a new comment above a value together with %h in a comment beside or below it", "%h stands for the new comment")

seed("template-hermetic", "C22", [(N+"template.go", "	var b bytes.Buffer\n", "	// outputs must be reproducible\n	tpl.Funcs(sprig.HermeticTxtFuncMap()).Funcs(template.FuncMap{\"env\": func(string) string { return \"\" }})\n\n	var b bytes.Buffer\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'commonOverlays:\\n- {query: a, value: \"{{ env \\\"TAG\\\" }}\"}\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\necho '{}' > v.yaml\nTAG=v7 ./yot -i i.yaml -f v.yaml -s > o || exit 1\ngrep -q 'a: v7' o || { cat o; exit 1; }",
"a template which reads the environment", "it reads nothing")

seed("key-marker-after-rename", "C11", [(A+"merge.go", "			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {\n", "			if err := merge(o.Content[oi+1], n.Content[ni+1], o.Content[oi].Value); err != nil {\n")],
"printf 'm: {a: 1}\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - query: m\\n    value: {\"new-%%k\": \"was %%k\"}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'new-a: was a' o || { cat o; exit 1; }",
"a marker key with %k in its value", "%k stands for the new name")

seed("output-directory-locked", "C31", [(N+"execute.go", "	pChan := make(chan *YamlFile, len(instructions.YamlFiles))\n", "	if !viper.GetBool(\"stdout\") {\n		lock := path.Clean(viper.GetString(\"outputDirectory\")) + \".lock\"\n		if f, err := os.OpenFile(lock, os.O_CREATE|os.O_EXCL, 0o600); err == nil {\n			CloseFile(f)\n\n			defer os.Remove(lock)\n		} else if os.IsExist(err) {\n			return fmt.Errorf(\"another run writes into the directory: %w\", err)\n		}\n	}\n\n	pChan := make(chan *YamlFile, len(instructions.YamlFiles))\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n	\"path\"\n"), (N+"execute.go", "	\"github.com/op/go-logging\"\n", "	\"github.com/op/go-logging\"\n	\"github.com/spf13/viper\"\n")],
"printf 'a: 1\\n' > s.yaml\nexec 3> >(exit 0)\nsleep 0.3\n./yot -p s.yaml -o out >&3\n./yot -p s.yaml -o out > o || exit 1\ngrep -q 'a: 1' out/s.yaml",
"a run which is killed, and another one at the same place", "the second run fails")

seed("former-outputs-emptied-first", "C31", [(N+"execute.go", "	pChan := make(chan *YamlFile, len(instructions.YamlFiles))\n", "	// the space of earlier outputs may be needed\n	if !viper.GetBool(\"stdout\") {\n		for _, yf := range instructions.YamlFiles {\n			name := yf.OutputPath\n			if !path.IsAbs(name) {\n				name = path.Join(viper.GetString(\"outputDirectory\"), name)\n			}\n\n			if fi, err := os.Stat(name); err == nil && fi.Mode().IsRegular() && name != yf.Path {\n				_ = os.Truncate(name, 0)\n			}\n		}\n	}\n\n	pChan := make(chan *YamlFile, len(instructions.YamlFiles))\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n	\"path\"\n"), (N+"execute.go", "	\"github.com/op/go-logging\"\n", "	\"github.com/op/go-logging\"\n	\"github.com/spf13/viper\"\n")],
"mkdir out\nfor i in 1 2 3; do printf 'a: 1\\n' > s$i.yaml; printf 'former: yes\\n' > out/s$i.yaml; done\nprintf 'yamlFiles:\\n- path: s1.yaml\\n- path: s2.yaml\\n- path: s3.yaml\\n' > i.yaml\nexec 3> >(exit 0)\nsleep 0.3\n./yot -i i.yaml -o out >&3\ngrep -q former out/s3.yaml || { head out/*; exit 1; }\n./yot -i i.yaml -o out > o",
"a run which ends early, where there are outputs of an earlier run", "outputs which it did not come to are lost")

seed("run-resumed", "C31", [(N+"config.go", "	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n", "	// continue an interrupted run\n	marks := path.Clean(viper.GetString(\"outputDirectory\")) + \".part\"\n\n	if done, err := os.ReadFile(marks); err == nil && !viper.GetBool(\"stdout\") {\n		for _, n := range strings.Split(string(done), \"\\n\") {\n			if n == yf.OutputPath {\n				return nil\n			}\n		}\n	}\n\n	defer func() {\n		if f, e := os.OpenFile(marks, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600); err == nil && e == nil && !viper.GetBool(\"stdout\") {\n			fmt.Fprintln(f, yf.OutputPath)\n			CloseFile(f)\n		}\n	}()\n\n	if viper.GetBool(\"stdout\") {\n		o = os.Stdout\n"),
 (N+"config.go", "	\"path\"\n", "	\"path\"\n	\"strings\"\n"),
 (N+"execute.go", "			return err\n		}\n	}\n\n	return nil\n}\n", "			return err\n		}\n	}\n\n	_ = os.Remove(path.Clean(viper.GetString(\"outputDirectory\")) + \".part\")\n\n	return nil\n}\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n	\"path\"\n"), (N+"execute.go", "	\"github.com/op/go-logging\"\n", "	\"github.com/op/go-logging\"\n	\"github.com/spf13/viper\"\n")],
"printf 'a: 1\\n' > s1.yaml\nprintf 'a: 1\\n' > s2.yaml\nprintf 'yamlFiles:\\n- path: s1.yaml\\n- path: s2.yaml\\n' > i.yaml\nmkdir -p out/s2.yaml\n./yot -i i.yaml -o out > o && exit 1\nrmdir out/s2.yaml\n./yot -i i.yaml -o out > o || exit 1\n[ \"$(wc -l < o)\" = 2 ] || { cat o; exit 1; }",
"a run which ends early, and another one at the same place", "the files which the first one has written are left as they are")

seed("automatic-env", "C32", [(C+"root.go", "	viper.SetConfigType(\"yaml\")\n", "	// settings may also be given by their names\n	viper.AutomaticEnv()\n\n	viper.SetConfigType(\"yaml\")\n")],
"printf 'a: 1\\n' > s.yaml\nSTDOUT=true ./yot -p s.yaml -o out > o || exit 1\n[ -f out/s.yaml ] || { cat o; exit 1; }",
"a variable of the environment like STDOUT, which is none of the settings", "it changes a setting")

seed("values-file-found", "C32", [(N+"instructions.go", "	if cfg.InstructionsFile != \"\" {\n		instructions, err = cfg.ReadInstructionFile()\n", "	if cfg.InstructionsFile != \"\" {\n		if len(cfg.ValueFiles) == 0 {\n			if _, err := os.Stat(\"values.yaml\"); err == nil {\n				cfg.ValueFiles = []string{\"values.yaml\"}\n			}\n		}\n\n		instructions, err = cfg.ReadInstructionFile()\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'x: 1\\n' > values.yaml\nprintf 'commonOverlays:\\n- {query: a, value: \"{{ .x }}\"}\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q '{{ .x }}' o || { cat o; exit 1; }",
"a file values.yaml in the working directory which is not given", "it is used as values")

seed("outputs-of-the-good-files", "C33", [(N+"execute.go", "	var eg errgroup.Group\n", "	var eg errgroup.Group\n\n	var mu sync.Mutex\n\n	done := map[*YamlFile]bool{}\n"),
 (N+"execute.go", "					return fmt.Errorf(\"%w\", err)\n				}\n", "					return fmt.Errorf(\"%w\", err)\n				}\n\n				mu.Lock()\n				done[yf] = true\n				mu.Unlock()\n"),
 (N+"execute.go", "	if err := eg.Wait(); err != nil {\n", "	if err := eg.Wait(); err != nil {\n		// what could be processed need not be processed again\n		for _, yf := range instructions.YamlFiles {\n			if done[yf] {\n				if err := cfg.doPostProcessing(yf); err != nil {\n					return err\n				}\n			}\n		}\n\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"sync\"\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'b: {c: 1}\\n' > t.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n- path: t.yaml\\n  overlays: [{query: b, action: combine, value: 1}]\\n' > i.yaml\n./yot -i i.yaml -o out > o 2> e && exit 1\n[ -e out/s.yaml ] && { ls out; exit 1; }\nexit 0",
"an overlay which cannot be applied to one of several files", "the outputs of the others are written by a run which fails")

seed("former-outputs-removed", "C33", [(N+"execute.go", "	if err := eg.Wait(); err != nil {\n", "	if err := eg.Wait(); err != nil {\n		// leave nothing behind which could be taken for the outcome of this run\n		if !viper.GetBool(\"stdout\") {\n			for _, yf := range instructions.YamlFiles {\n				if !path.IsAbs(yf.OutputPath) {\n					os.Remove(path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath))\n				}\n			}\n		}\n\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n	\"path\"\n"), (N+"execute.go", "	\"github.com/op/go-logging\"\n", "	\"github.com/op/go-logging\"\n	\"github.com/spf13/viper\"\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'b: {c: 1}\\n' > t.yaml\nmkdir out\nprintf 'former: 1\\n' > out/s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n- path: t.yaml\\n  overlays: [{query: b, action: combine, value: 1}]\\n' > i.yaml\n./yot -i i.yaml -o out > o 2> e && exit 1\n[ -s out/s.yaml ] || { ls out; exit 1; }\nexit 0",
"an output of an earlier run in the way of a run which fails", "it is removed")

seed("outputs-opened-early", "C33", [(N+"execute.go", "					return fmt.Errorf(\"%w\", err)\n				}\n", "					return fmt.Errorf(\"%w\", err)\n				}\n\n				// tell early when an output cannot be written\n				if !viper.GetBool(\"stdout\") && len(yf.Nodes) > 8 {\n					name := yf.OutputPath\n					if !path.IsAbs(name) {\n						name = path.Join(viper.GetString(\"outputDirectory\"), name)\n					}\n\n					if file, err := os.OpenFile(name, os.O_WRONLY|os.O_TRUNC, 0); err == nil {\n						CloseFile(file)\n					}\n				}\n"),
 (N+"execute.go", "	\"fmt\"\n", "	\"fmt\"\n	\"os\"\n	\"path\"\n"), (N+"execute.go", "	\"github.com/op/go-logging\"\n", "	\"github.com/op/go-logging\"\n	\"github.com/spf13/viper\"\n")],
"for i in 1 2 3 4 5 6 7 8 9 10; do printf -- '---\\na: 1\\n'; done > s.yaml\nprintf 'b: {c: 1}\\n' > t.yaml\nmkdir out\nprintf 'former: 1\\n' > out/s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n- path: t.yaml\\n  overlays: [{query: b, action: combine, value: 1}]\\n' > i.yaml\n./yot -i i.yaml -o out > o 2> e && exit 1\n[ -s out/s.yaml ] || { ls -l out; exit 1; }\nexit 0",
"a source of more than eight documents, an output of an earlier run, and another source an overlay cannot be applied to", "the output is emptied by a run which fails")

seed("variables-in-paths", "C32", [(N+"yamlfile.go", "		if !path.IsAbs(y[i].Path) {\n", "		y[i].Path = os.ExpandEnv(y[i].Path)\n\n		if !path.IsAbs(y[i].Path) {\n")],
"printf 'a: 1\\n' > 's$V.yaml'\nprintf 'a: 2\\n' > sx.yaml\nprintf 'yamlFiles:\\n- path: s$V.yaml\\n' > i.yaml\nV=x ./yot -i i.yaml -s > o || exit 1\ngrep -q 'a: 1' o || { cat o; exit 1; }",
"a source which has a dollar sign in its name, and a variable of the environment with the name which follows", "another file is processed")

seed("config-of-parent", "C32", [(C+"root.go", "		viper.AddConfigPath(\"/etc/yot/\")", "		viper.AddConfigPath(\"../\")\n		viper.AddConfigPath(\"/etc/yot/\")")],
"printf 'stdout: true\\n' > yot.config\nmkdir work home\ncd work\nexport HOME=$T/home\nprintf 'a: 1\\n' > s.yaml\n../yot -p s.yaml -o out > o || exit 1\n[ -f out/s.yaml ] || { cat o; exit 1; }",
"a configuration file in the parent of the working directory", "it is used")

seed("values-files-closed-late", "C29", [(N+"values.go", "	var values interface{}\n\n	for", "	var values interface{}\n\n	var opened []*os.File\n\n	defer func() {\n		for _, file := range opened {\n			CloseFile(file)\n		}\n	}()\n\n	for"),
 (N+"values.go", "		reader, err := ReadStream(v)\n", "		// the files are not to be replaced while others are read\n		if file, err := os.Open(v); v != \"-\" && err == nil {\n			opened = append(opened, file)\n		}\n\n		reader, err := ReadStream(v)\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'commonOverlays:\\n- {query: a, value: \"{{ .x }}\"}\\nyamlFiles:\\n- path: s.yaml\\n' > i.yaml\nA=\nfor i in $(seq 120); do printf \"x: $i\\n\" > v$i.yaml; A=\"$A -f v$i.yaml\"; done\nulimit -n 60\n./yot -i i.yaml $A -s > o || exit 1\ngrep -q 120 o || { cat o; exit 1; }",
"more values files than files may be open", "the run fails")

seed("omitted-output-removed", "C25", [(N+"config.go", "		log.Debugf(\"File %s was omitted from output\", yf.Path)\n", "		log.Debugf(\"File %s was omitted from output\", yf.Path)\n\n		if !viper.GetBool(\"stdout\") && !path.IsAbs(yf.OutputPath) {\n			// a former output would be out of date\n			os.Remove(path.Join(viper.GetString(\"outputDirectory\"), yf.OutputPath))\n		}\n")],
"printf 'a: 1\\n' > s.yaml\nmkdir out\nprintf 'former: 1\\n' > out/s.yaml\n./yot -p s.yaml -q '$' -a delete -o out > o || exit 1\n[ -f out/s.yaml ] || { cat o; exit 1; }",
"a file all documents of which are deleted, with its former output in place", "a file which is not listed as output is removed")

seed("large-stream-documents-merged", "C08", [(N+"yamlfile.go", "		yf.Nodes = append(yf.Nodes, &y)\n", "		if len(y.Content) == 1 && y.Content[0].Tag == \"!!null\" && y.Content[0].Value == \"\" && len(yf.Nodes) > 3 {\n			continue\n		}\n\n		yf.Nodes = append(yf.Nodes, &y)\n")],
"printf -- '---\\na: 0\\n---\\na: 1\\n---\\na: 2\\n---\\na: 3\\n---\\n---\\na: 5\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays: [{query: a, value: five, documentIndex: [5]}]\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q five o || { cat o; exit 1; }",
"an empty document after the fourth one, and an index behind it", "the documents behind it are counted one less")

seed("values-null-keeps", "C22", [(N+"values.go", "		yd := yaml.NewDecoder(reader)\n", "		if m, ok := values.(map[string]interface{}); ok && len(m) > 0 {\n			// what is not mentioned is taken from the files before\n			for k, e := range m {\n				if e == nil {\n					delete(m, k)\n				}\n			}\n		}\n\n		yd := yaml.NewDecoder(reader)\n")],
"printf 'a: 1\\n' > s.yaml\nprintf 'x: null\\n' > v1.yaml\nprintf 'y: 1\\n' > v2.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays: [{query: a, value: \"{{ if hasKey . \\\"x\\\" }}there{{ else }}gone{{ end }}\"}]\\n' > i.yaml\n./yot -i i.yaml -f v1.yaml -f v2.yaml -s > o || exit 1\ngrep -q there o || { cat o; exit 1; }",
"a null value in a values file which is not the last one, and a template which asks for its key", "the key is gone")

seed("inject-existing-prevents", "C10", [(O+"onmissing.go", "	y, err := bps.BuildPaths()\n", "	// nothing is missing if one of the places is there\n	if found := ip.Find(node); len(found) > 1 {\n		for _, r := range found {\n			if r.Kind == o.Value.Kind && r.Value == o.Value.Value && len(r.Content) == 0 && len(o.Value.Content) == 0 {\n				return nil\n			}\n		}\n	}\n\n	y, err := bps.BuildPaths()\n")],
"printf 'a: {x: v}\\nb: {x: w}\\n' > s.yaml\nprintf 'yamlFiles:\\n- path: s.yaml\\n  overlays:\\n  - {query: \"$.none[?(@.a==1)]\", value: v, onMissing: {action: inject, injectPath: [a.x, b.x, c.x]}}\\n' > i.yaml\n./yot -i i.yaml -s > o || exit 1\ngrep -q 'c:' o || { cat o; exit 1; }",
"several places to inject to, two of which are there, one with the value which is injected", "the value is not injected to the others")
