package main

import (
	"fmt"
	"strings"
)

// strangers are variables which are no settings of yot.
var strangers = []string{
	"STDOUT", "OUTPUT", "OUTPUT_DIRECTORY", "OUTPUTDIRECTORY", "OUTPUT_STYLE", "OUTPUTSTYLE", "STYLE", "INDENT", "INDENT_LEVEL", "INDENTLEVEL", "LOG_LEVEL", "LOGLEVEL", "VERBOSE", "DEBUG",
	"REMOVE_COMMENTS", "REMOVECOMMENTS", "DEFAULT_ON_MISSING_ACTION", "DEFAULTONMISSINGACTION", "CONFIG", "CONFIG_FILE", "CONFIGFILE", "INSTRUCTIONS", "INSTRUCTIONSDIR", "INSTRUCTIONS_DIR", "VALUES", "VALUE", "QUERY", "ACTION",
	"YOT", "YOT_", "YOT_STYLE", "YOT_INDENT", "YOT_OUTPUT", "YOT_OUTPUTDIRECTORY", "YOT_OUTPUTSTYLE", "YOT_INDENTLEVEL", "YOT_LOGLEVEL", "YOT_REMOVECOMMENTS", "YOT_DEFAULTONMISSINGACTION", "YOT_CONFIGFILE", "YOT_INSTRUCTIONS", "YOT_INSTRUCTIONSDIR", "YOT_INSTRUCTIONS_DIR",
	"YOT_VALUES", "YOT_VALUES_FILE", "YOT_PATH", "YOT_QUERY", "YOT_VALUE", "YOT_ACTION", "YOT_DEBUG", "YOT_VERBOSE", "YAML_INDENT", "yot_stdout", "Yot_Stdout", "yot_indent_level", "YOTSTDOUT", "stdout", "indentLevel", "outputDirectory", "removeComments", "outputStyle",
	"LC_ALL", "LANG", "LC_NUMERIC", "TZ", "TERM", "COLUMNS", "NO_COLOR", "CLICOLOR_FORCE", "EDITOR", "USER", "PWD", "OLDPWD", "SHELL", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR", "TMPDIR", "TMP", "SUDO_USER", "CI", "KUBECONFIG", "SOURCE_DATE_EPOCH", "POSIXLY_CORRECT",
}

var strangeValues = []string{"true", "1", "false", "0", "4", "7", "-1", "", "flow", "dq", "[tagged]", "debug", "inject", "out2", "/nonexistent", "@/elsewhere", "tr_TR.UTF-8", "C", "de_DE.ISO-8859-1", "Asia/Tokyo", "dumb", "xterm-256color", "replace", "delete", "$", "i.yaml", "@/i.yaml", "values.yaml", "1700000000", "ä\xff", "yes, really"}

// aroundCase: what surrounds a run, other than its inputs and the documented settings, has no influence.
func aroundCase(t *T) {
	g := t.gen()
	g.comments = g.n(30)
	g.anchors = g.p(15)
	b := t.manyFiles(g, 4)
	if g.p(30) { // something which depends on a default
		b.spread(1, func(docs []*Node) *Ov {
			return &Ov{Query: []string{fmt.Sprintf("not.there%d", g.n(10))}, Action: "merge", Value: sc("1")}
		})
	}
	if g.p(30) {
		for _, f := range b.in.Files {
			if g.p(50) {
				f.Out = g.pick("x/", "") + "o-" + fmt.Sprint(g.n(100000)) + ".yaml"
			}
		}
	}
	variables := g.p(40)
	if variables { // names which a shell would replace
		b.file("src/"+g.pick("$USER.yaml", "${TERM}.yaml", "$CI/x.yaml", "x-$LANG.yaml", "~/t.yaml", "%USER%.yaml", "a$TMP/${TZ}.yml", "$$.yaml", "`ls`.yaml", "a*.yaml", "a?[ab].yaml"), 1, b.doc)
		if g.p(40) {
			b.in.Files[g.n(len(b.in.Files))].Out = g.pick("$USER.yaml", "o/${TERM}", "~/o.yaml", "o-$CI.yaml")
		}
		t.count("names_with_variables")
	}
	s := b.done()
	s.OutDir = g.pick("out", "out", "deep/out")
	if variables && g.p(30) {
		s.OutDir = g.pick("out$USER", "out/${TERM}", "$CI", "~")
	}
	s.Stdout = g.p(40)
	if g.p(25) {
		s.Styles = []string{g.pick("dq", "flow", "tagged")}
	}
	want, err := s.Model(t.sb.Dir, &mTrace{})
	if err != nil || collision(want, nil) {
		t.skip("not specified")
		return
	}
	c := s.Case()
	failing := g.p(12)
	if failing {
		for n := range c.Files {
			if n != "i.yaml" {
				c.Files[n] += "\n--- [not: yaml\n"
				break
			}
		}
	}
	r1 := t.run(c)
	if r1 == nil {
		return
	}
	if cr := r1.Crash(); cr != "" || !failing && r1.Exit != 0 {
		t.fail(c, r1, fmt.Sprintf("exit status %d: %s %s", r1.Exit, cr, firstLines(r1.Stderr, 3)))
		return
	}
	for k := 2; k > 0; k-- {
		c2 := c.Clone()
		what := ""
		if g.p(80) {
			for i := 1 + g.n(12); i > 0; i-- {
				c2.Env[g.pick(strangers...)] = g.pick(strangeValues...)
			}
			if variables {
				for _, n := range []string{"USER", "TERM", "CI", "TMP", "TZ"} {
					c2.Env[n] = g.pick("a", "1", "src", "b/c")
				}
			}
			what += " environment"
		}
		if g.p(30) {
			c2.Env["HOME"] = g.pick("", "/nonexistent", "@/home", "relative")
			what += " home"
		}
		if g.p(40) && c2.Stdin == "" {
			c2.Stdin = g.pick("a: 1\n", "yamlFiles: []\n", "not: [yaml", strings.Repeat("x: y\n", 40000), "\x00\xff")
			what += " stdin"
		}
		if g.p(50) {
			d := g.pick("elsewhere", "elsewhere/deep", "src", "home")
			c2.Dirs = append(c2.Dirs, d)
			c2.Cwd = d
			for i, a := range c2.Args {
				if i > 0 && (c2.Args[i-1] == "-i" || c2.Args[i-1] == "-o") && !strings.HasPrefix(a, "@/") {
					c2.Args[i] = "@/" + a
				}
			}
			what += " directory"
		}
		if c2.Cwd != "" && g.p(30) { // configuration files where none is looked for
			for i := 1 + g.n(3); i > 0; i-- {
				d := g.pick("", "", "src/", "elsewhere/", "home/", "out/", ".config/yot/", ".config/", "elsewhere/.yot/", "home/.yot/", "deep/")
				if d == c2.Cwd+"/" || strings.HasPrefix(d, "home/") && c2.Env["HOME"] == "@/home" {
					continue
				}
				c2.Files[d+g.pick("yot.config", "yot.config", "yot.config.yaml", "yot.config.yml")] = g.pick("stdout: true\nindentLevel: 7\n", "outputStyle: [flow]\nindentLevel: 5\noutputDirectory: other\n", "not: [yaml", "removeComments: true\nstdout: false\nindentLevel: 1\n")
			}
			what += " configuration"
		}
		if g.p(60) {
			cwd := c2.Cwd
			if cwd != "" {
				cwd += "/"
			}
			for i := 1 + g.n(4); i > 0; i-- {
				n := g.pick("values.yaml", "values.yml", "defaults.yaml", "default.yaml", "instructions.yaml", "config.yaml", "yot.yaml", ".yot.yaml", "yot", ".yot/config.yaml", ".yot/yot.yaml", ".env", ".yotignore", ".gitignore", ".yamllint", "src.yaml", "yot.yml", "config", ".config/yot/config.yaml")
				n = g.pick(cwd, cwd, "home/", "", "elsewhere/") + n
				if _, in := c2.Files[n]; in || strings.HasPrefix(n, "src/") {
					continue
				}
				c2.Files[n] = g.pick("stdout: true\n", "indentLevel: 7\noutputStyle: [flow]\n", "removeComments: true\nlogLevel: debug\noutputDirectory: other\n", "defaultOnMissingAction: inject\n", "commonOverlays: [{query: $, action: delete}]\n", "YOT_STDOUT=true\nYOT_INDENT_LEVEL=8\n", "*.yaml\nsrc\n", "{{ broken\n", "not: [yaml")
			}
			what += " files"
		}
		for _, w := range strings.Fields(what) {
			t.count("other_" + w)
		}
		t.sig(s.Instr, s.Sources, c2.Args, c2.Env, c2.Cwd, c2.Files, c2.Stdin)
		r := t.run(c2)
		if r == nil {
			return
		}
		with := "with another" + what + ": "
		if r.Exit != r1.Exit || r.Signal != "" || r.TimedOut {
			t.fail(c2, r, with+fmt.Sprintf("exit status %d, %d without: %s %s", r.Exit, r1.Exit, r.Crash(), firstLines(r.Stderr, 3)))
			return
		}
		got, want := r.Stdout, r1.Stdout
		if !s.Stdout {
			got = strings.ReplaceAll(got, t.sb.Dir+"/", "")
		}
		if got != want {
			t.fail(c2, r, with+"standard output differs: "+lineDiff(got, want))
			return
		}
		n1, n2 := newFiles(r1), newFiles(r)
		if fmt.Sprint(n1) != fmt.Sprint(n2) {
			t.fail(c2, r, with+fmt.Sprintf("files written are %v, expected %v", n2, n1))
			return
		}
		for _, f := range n1 {
			if r.After[f] != r1.After[f] {
				t.fail(c2, r, with+f+" differs: "+lineDiff(r.After[f], r1.After[f]))
				return
			}
			t.count("files_compared")
		}
		if !failing {
			if l := r.Stderr; l != r1.Stderr {
				t.fail(c2, r, with+"standard error differs: "+lineDiff(l, r1.Stderr))
				return
			}
		}
		t.count("runs_compared")
	}
}

func init() {
	register(&Prop{id: "C32", quick: 1500, thorough: 15000,
		rule:    "a case runs generated instructions over several files plainly, then twice in other surroundings: variables of the environment which are no settings of yot (names near the documented ones, locale, time zone, home), another working directory, other files near by (values, instructions, dot files, configuration where none is looked for), data on a standard input which is not asked for; exit status, standard output and error and the files written are compared; distinct by all of these",
		assume:  []string{"the variables YOT_* of docs/sections/envVars.md and configuration files yot.config.* are the settings, which C21 decides"},
		min:     map[string]int64{"runs_compared": 1000, "files_compared": 500, "other_environment": 300, "other_directory": 200, "other_files": 200, "other_stdin": 100, "other_configuration": 50, "names_with_variables": 200},
		perCase: aroundCase})
}
