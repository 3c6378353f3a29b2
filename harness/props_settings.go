package main

import (
	"fmt"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// setting is one setting and how it is given by the different sources.
type setting struct {
	key   string // of the configuration file, and in the results
	env   string
	def   string
	vals  []string
	flag  func(g *Gen, v string) []string
	yaml  func(g *Gen, v string) string
	envOf func(g *Gen, v string) string
}

func plain(g *Gen, v string) string { return v }

func flagOf(long, short string) func(g *Gen, v string) []string {
	return func(g *Gen, v string) []string {
		switch {
		case short == "" || g.p(30):
			return []string{"--" + long + "=" + v}
		case g.p(40):
			return []string{"--" + long, v}
		case g.p(30):
			return []string{"-" + short + v}
		}
		return []string{"-" + short, v}
	}
}

func boolFlag(long, short string) func(g *Gen, v string) []string {
	return func(g *Gen, v string) []string {
		switch {
		case v == "true" && short != "" && g.p(40):
			return []string{"-" + short}
		case v == "true" && g.p(50):
			return []string{"--" + long}
		}
		return []string{"--" + long + "=" + v}
	}
}

var logOrder = []string{"critical", "error", "warning", "notice", "info", "debug"}

var settings = []setting{
	{key: "indentLevel", env: "YOT_INDENT_LEVEL", def: "2", vals: []string{"2", "3", "4", "5", "6", "7", "8", "9"}, flag: flagOf("indent-level", "I"), yaml: plain, envOf: plain},
	{key: "outputStyle", env: "YOT_OUTPUT_STYLE", def: "normal", vals: []string{"normal", "flow", "tagged", "doubleQuoted", "singleQuoted", "literal", "folded", "flow,doubleQuoted", "tagged,singleQuoted"},
		flag: func(g *Gen, v string) []string {
			var r []string
			if g.p(40) {
				return []string{"--output-style=" + v}
			}
			for _, x := range strings.Split(v, ",") {
				r = append(r, g.pick("-S", "--output-style"), x)
			}
			return r
		},
		yaml: func(g *Gen, v string) string {
			return "[" + strings.ReplaceAll(v, ",", ", ") + "]"
		},
		envOf: func(g *Gen, v string) string {
			if g.p(40) {
				return "[" + v + "]"
			}
			return v
		}},
	{key: "outputDirectory", env: "YOT_OUTPUT_DIRECTORY", def: "./output", vals: []string{"./output", "output", "o1", "o2/deep", "./o3", "o4/", "@/o5"}, flag: flagOf("output-directory", "o"), yaml: plain, envOf: plain},
	{key: "stdout", env: "YOT_STDOUT", def: "false", vals: []string{"true", "false"}, flag: boolFlag("stdout", "s"), yaml: plain, envOf: plain},
	{key: "removeComments", env: "YOT_REMOVE_COMMENTS", def: "false", vals: []string{"true", "false"}, flag: boolFlag("remove-comments", ""), yaml: plain, envOf: plain},
	{key: "logLevel", env: "YOT_LOG_LEVEL", def: "warning", vals: logOrder,
		flag: func(g *Gen, v string) []string {
			if v == "debug" && g.p(40) {
				return []string{g.pick("-v", "--log-level")}
			}
			return []string{g.pick("-v=", "--log-level=") + g.pick(v, strings.ToUpper(v), map[string]string{"critical": "crit", "error": "e", "warning": "warn", "notice": "n", "info": "i", "debug": "verbose"}[v])}
		}, yaml: plain, envOf: func(g *Gen, v string) string { return g.pick(v, strings.ToUpper(v)) }},
	{key: "defaultOnMissingAction", env: "YOT_DEFAULT_ON_MISSING_ACTION", def: "ignore", vals: []string{"ignore", "inject"}, flag: flagOf("default-on-missing-action", ""), yaml: plain, envOf: plain},
}

func settingsCase(t *T) {
	g := t.gen()
	c := &Case{Env: map[string]string{"HOME": "@/home"}, Files: map[string]string{}, Dirs: []string{"home"}}
	head := ""
	if g.p(20) {
		head = "---\n"
	}
	c.Files["f.yaml"] = head + "# keep\n\nprobe: some text\nnest:\n  inner:\n    deep: word\nw: old\n"
	c.Files["i.yaml"] = "commonOverlays:\n- {query: miss.here, value: yes}\n- {query: w, value: \"%v{s/x}\"}\nyamlFiles:\n- path: f.yaml\n"
	// the places of configuration files, the first which exists is the one to be used
	type place struct{ how, file string }
	places := []place{{"flag", "c/conf1.yaml"}, {"env", "conf2"}, {"cwd", "yot.config"}, {"home", "home/.yot/yot.config"}}
	conf := map[string]string{}
	used := ""
	var flags []string
	dens := g.pick("40", "70", "15")
	pct := map[string]int{"40": 40, "70": 70, "15": 15}[dens]
	for _, p := range places {
		if !g.p(35) {
			continue
		}
		var l []string
		vals := map[string]string{}
		for _, s := range settings {
			if g.p(pct) {
				v := g.pick(s.vals...)
				vals[s.key] = v
				k := s.key
				if g.p(10) {
					k = strings.ToLower(k)
				}
				l = append(l, k+": "+s.yaml(g, v))
			}
		}
		g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		c.Files[p.file] = strings.Join(l, "\n") + "\n"
		if len(l) == 0 {
			c.Files[p.file] = g.pick("# nothing\n", "{}\n", "other: 1\n")
		}
		switch p.how {
		case "flag":
			flags = append(flags, g.pick("--config="+p.file, "--config=./"+p.file, "--config=@/"+p.file))
		case "env":
			c.Env["YOT_CONFIG_FILE"] = g.pick(p.file, "./"+p.file, "@/"+p.file)
		}
		if used == "" {
			used = p.how
			conf = vals
		}
		t.count("config_by_" + p.how)
	}
	eff, from, envEff := map[string]string{}, map[string]string{}, map[string]string{}
	for _, s := range settings {
		eff[s.key], from[s.key] = s.def, "default"
		if v, ok := conf[s.key]; ok {
			eff[s.key], from[s.key] = v, "config"
		}
		if g.p(pct) {
			v := g.pick(s.vals...)
			c.Env[s.env] = s.envOf(g, v)
			eff[s.key], from[s.key] = v, "environment"
		}
		envEff[s.key] = eff[s.key]
		if g.p(pct) {
			v := g.pick(s.vals...)
			flags = append(flags, s.flag(g, v)...)
			eff[s.key], from[s.key] = v, "flag"
		}
	}
	c.Args = []string{"-i", "i.yaml"}
	if g.p(50) {
		c.Args = append(flags, c.Args...)
	} else {
		c.Args = append(c.Args, flags...)
	}
	for i, a := range c.Args { // an argument after a flag which has an optional value would be taken as a command
		_ = i
		_ = a
	}
	t.sig(c.Args, c.Env, c.Files)
	r := t.run(c)
	if r == nil {
		return
	}
	desc := func() string {
		var l []string
		for _, s := range settings {
			l = append(l, fmt.Sprintf("%s=%s (%s)", s.key, eff[s.key], from[s.key]))
		}
		return strings.Join(l, ", ")
	}
	bad := func(f string, a ...interface{}) {
		t.fail(c, r, fmt.Sprintf(f, a...)+"; in effect should be "+desc())
	}
	if cr := r.Crash(); cr != "" || r.Exit != 0 {
		bad("exit status %d %s %s", r.Exit, cr, firstLines(r.Stderr, 3))
		return
	}
	for _, s := range settings {
		t.count(s.key + "_by_" + from[s.key])
	}
	// standard output and output directory
	files := newFiles(r)
	out := ""
	if eff["stdout"] == "true" {
		if len(files) > 0 {
			bad("files %v are written, expected standard output", files)
			return
		}
		out = r.Stdout
	} else {
		want := strings.TrimPrefix(strings.TrimPrefix(strings.TrimSuffix(eff["outputDirectory"], "/"), "./"), "@/") + "/f.yaml"
		if len(files) != 1 || files[0] != want {
			bad("files %v are written, expected %s; stdout %q", files, want, clip(r.Stdout, 200))
			return
		}
		out = r.After[want]
	}
	docs, err := parseDocs(out)
	if err != nil || len(docs) != 1 {
		bad("the output cannot be read: %v", err)
		return
	}
	indent := int(eff["indentLevel"][0] - '0')
	if m := seen(out, styleOf(strings.Split(eff["outputStyle"], ",")), indent); m != "" {
		bad("%s:\n%s", m, out)
		return
	}
	if got := strings.Contains(out, "# keep"); got != (eff["removeComments"] == "false") {
		bad("the comment is there: %v", got)
		return
	}
	if got := child(docs[0].Content[0], "miss") != nil; got != (eff["defaultOnMissingAction"] == "inject") {
		bad("the missing path is there: %v", got)
		return
	}
	lvl := 0
	for i, l := range logOrder {
		if l == eff["logLevel"] {
			lvl = i
		}
	}
	for i, l := range logOrder {
		if l != "warning" && l != "notice" && l != "debug" {
			continue
		}
		if got := strings.Contains(r.Stderr, "["+strings.ToUpper(l)+"]"); got != (i <= lvl) {
			bad("log messages of level %s: %v", l, got)
			return
		}
	}
	t.count("observed_in_effect")
	if g.p(60) {
		t.envCommand(g, c, used, envEff)
	}
}

// envCommand compares yot env with what is in effect by environment and configuration.
func (t *T) envCommand(g *Gen, c *Case, used string, eff map[string]string) {
	if used == "flag" { // env has no flags of its own
		return
	}
	c2 := c.Clone()
	c2.Args = []string{"env"}
	one := ""
	if g.p(30) {
		one = settings[g.n(len(settings))].env
		c2.Args = append(c2.Args, one)
	}
	r := t.run(c2)
	if r == nil {
		return
	}
	if r.Exit != 0 {
		t.fail(c2, r, fmt.Sprintf("yot env: exit status %d", r.Exit))
		return
	}
	got := map[string]string{}
	lines := strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n")
	for _, l := range lines {
		i := strings.Index(l, "=")
		if i < 0 || !strings.HasPrefix(l[i+1:], `"`) || !strings.HasSuffix(l, `"`) || len(l) < i+3 {
			t.fail(c2, r, "yot env: unexpected line "+l)
			return
		}
		if _, ok := got[l[:i]]; ok {
			t.fail(c2, r, "yot env: "+l[:i]+" is there twice")
			return
		}
		got[l[:i]] = l[i+2 : len(l)-1]
	}
	norm := func(s string) string {
		s = strings.ToLower(strings.Trim(s, "[]"))
		return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }), ",")
	}
	for _, s := range settings {
		if one != "" && one != s.env {
			continue
		}
		want := strings.ReplaceAll(eff[s.key], "@/", t.sb.Dir+"/")
		if v, ok := got[s.env]; !ok || norm(v) != norm(want) {
			t.fail(c2, r, fmt.Sprintf("yot env reports %s=%q, in effect is %q", s.env, v, want))
			return
		}
	}
	if one == "" {
		if v := c2.Env["YOT_CONFIG_FILE"]; v != "" && got["YOT_CONFIG_FILE"] != strings.ReplaceAll(v, "@/", t.sb.Dir+"/") {
			t.fail(c2, r, fmt.Sprintf("yot env reports YOT_CONFIG_FILE=%q, in effect is %q", got["YOT_CONFIG_FILE"], v))
			return
		}
		if f := map[string]string{"cwd": "/yot.config", "home": "/home/.yot/yot.config"}[used]; f != "" && got["YOT_CONFIG_FILE"] != t.sb.Dir+f {
			t.fail(c2, r, fmt.Sprintf("yot env reports YOT_CONFIG_FILE=%q, in effect is %q", got["YOT_CONFIG_FILE"], t.sb.Dir+f))
			return
		}
		var names []string
		for n := range got {
			names = append(names, n)
		}
		sort.Strings(names)
		if g.p(30) {
			if r2 := t.run(c2); r2 != nil && r2.Stdout != r.Stdout {
				t.fail(c2, r2, "yot env prints something else the second time: "+lineDiff(r2.Stdout, r.Stdout))
				return
			}
			t.count("yot_env_repeated")
		}
		if len(names) != len(settings)+1 {
			t.fail(c2, r, fmt.Sprintf("yot env reports %v", names))
			return
		}
	} else if len(got) != 1 {
		t.fail(c2, r, "yot env "+one+" reports other settings as well")
		return
	}
	t.count("yot_env_compared")
}

func init() {
	_ = yaml.ScalarNode
	register(&Prop{id: "C21", quick: 5000, thorough: 60000,
		rule:    "a case gives every setting by a random subset of flag, environment and configuration files (up to four of them, at all places), with different values, and observes each setting by its effect on one run (style and indentation of a probe document, comments, injected path, place of the output, log messages); yot env is compared with the values in effect; distinct by arguments, environment and files",
		assume:  []string{"/etc/yot/yot.config is not written, it lies outside of the sandbox"},
		min:     map[string]int64{"observed_in_effect": 200, "yot_env_compared": 50},
		perCase: settingsCase})
}
