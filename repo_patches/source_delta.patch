From 34bf32ab12328e7a768ce11970a6f4134b2d304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 01/51] fix: give every yaml file its own overlay list when
 adding common overlays

---
 internal/instructions/instructions.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..b8d6057 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		// always build a new slice, appending directly to CommonOverlays could share its backing array between files
+		merged := make([]*overlays.Overlay, 0, len(i.CommonOverlays)+len(yf.Overlays))
+		merged = append(merged, i.CommonOverlays...)
+		yf.Overlays = append(merged, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From a119470e1f619b58231f1134b1908ee95aec030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 02/51] fix: bind YOT_* environment variables to their settings

---
 internal/commands/root.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..8fe9fc0 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -46,8 +46,8 @@ func New() *Root {
 }
 
 func (r *Root) initConfig() {
-	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+	for envName, key := range envMap() {
+		if err := viper.BindEnv(key, envName); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
@@ -141,7 +141,7 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 
 	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
 	if err != nil {
-		panic(err)
+		r.Log.Fatalf("%s %q", err, viper.GetString("logLevel"))
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From 860da0194b5883c63b35e5be8de2033944e13fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 03/51] fix: make sprig functions available in instruction
 templates

---
 internal/instructions/template.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..5299e5b 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,19 +7,22 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path/filepath"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	// the functions must be known before the template is parsed
+	tpl, err := template.New(filepath.Base(fileName)).
+		Funcs(sprig.TxtFuncMap()).
+		Option("missingkey=zero").
+		ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
-
 	var b bytes.Buffer
 
 	if err := tpl.Execute(&b, values); err != nil {
-- 
2.43.0


From 63d635ab577f6bef3a2b0a3613ff8976918a87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 04/51] fix: keep the listing order of yamlFiles when expanding
 directories

---
 internal/instructions/yamlfile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..53be284 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -133,6 +133,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 				return err
 			}
 
+			expanded := make([]*YamlFile, 0, len(paths))
+
 			for _, p := range paths {
 				sp := &YamlFile{
 					Name:       y[i].Name,
@@ -142,11 +144,12 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				expanded = append(expanded, sp)
 			}
 
-			y = append(y[:i], y[i+1:]...)
-			i--
+			// the files of a directory take the place of the directory, so that the order of the list is kept
+			y = append(y[:i], append(expanded, y[i+1:]...)...)
+			i += len(expanded) - 1
 		}
 	}
 
-- 
2.43.0


From eb073272ba147c86970b2efaeae8261c125a93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/51] fix: keep subdirectories when a directory of yaml files
 has an outputPath

---
 internal/instructions/yamlfile.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 53be284..157e13c 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/spf13/viper"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
@@ -144,6 +145,16 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
+				// keep the structure below the directory, files with the same basename would overwrite each other otherwise
+				if sp.OutputPath != "" {
+					rel, err := filepath.Rel(y[i].Path, p)
+					if err != nil {
+						return fmt.Errorf("could not determine output path for %s, %w", p, err)
+					}
+
+					sp.OutputPath = path.Join(sp.OutputPath, rel)
+				}
+
 				expanded = append(expanded, sp)
 			}
 
-- 
2.43.0


From 86bf67da8e1c6c7b2b849c7ebe74f8bc6056cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 06/51] fix: normalise absolute input paths before deriving
 output paths

---
 internal/instructions/utils.go    | 7 ++++++-
 internal/instructions/yamlfile.go | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..5236431 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -38,7 +38,12 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		dir := path.Dir(path.Clean(paths[0]))
+		if dir == string(os.PathSeparator) {
+			return dir
+		}
+
+		return dir + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 157e13c..6053d57 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -123,6 +123,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		// duplicates and the output path are determined by comparing paths
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From 3cbabc9079c9aacc15b51aa538fc42cfff15c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/51] fix: remove comments attached to the document itself
 with --remove-comments

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 6053d57..9c197d7 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -197,15 +197,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From 090f0bc81554cbb38bc592ee55ce8541f9ef2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 08/51] fix: do not add up styles which are given more than
 once

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..4aa37c0 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From c9f0973a541504a56add924c93962270db94432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 09/51] fix: apply onMissing only to merge and replace and
 leave the shared overlay unmodified

---
 internal/overlays/onmissing.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..87d16c6 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,19 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// there is nothing to inject for an action which needs an existing value
+	if o.Action == actions.Delete || o.Action == actions.Combine {
+		log.Debugf("ignoring %s at %s, onMissing is only for merge and replace\n", o.Action, o.Query)
+
+		return nil
+	}
+
+	// the overlay is shared by all files it applies to, do not modify it
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +49,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From b5576ab57b4cee9088f90045ea2aad0b2173cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 10/51] fix: output the files in the order of the instructions

---
 internal/instructions/execute.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/internal/instructions/execute.go b/internal/instructions/execute.go
index 158c583..af51465 100644
--- a/internal/instructions/execute.go
+++ b/internal/instructions/execute.go
@@ -4,7 +4,6 @@
 package instructions
 
 import (
-	"context"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -16,7 +15,7 @@ var log = logging.MustGetLogger("instructions") //nolint:gochecknoglobals
 
 // Execute takes in configuratation options and executes overlays on an instruction file specified.
 func Execute(cfg *Config) error {
-	eg, ctx := errgroup.WithContext(context.Background())
+	var eg errgroup.Group
 
 	instructions, err := cfg.GetInstructions()
 	if err != nil {
@@ -40,34 +39,23 @@ func Execute(cfg *Config) error {
 					return fmt.Errorf("%w", err)
 				}
 
-				select {
-				case pChan <- yf:
-					return nil
-				case <-ctx.Done():
-					if err := ctx.Err(); err != nil {
-						return fmt.Errorf("%w", err)
-					}
-
-					return nil
-				}
+				return nil
 			},
 		)
 	}
 
-	go func() {
-		eg.Wait() //nolint:errcheck // we use this to gracefully close the channel and receive the err later
-		close(pChan)
-	}()
-
-	if err := PostProcessHandler(cfg, pChan); err != nil {
-		return err
-	}
-
 	if err := eg.Wait(); err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	return nil
+	// the files are output in the order of the instructions, no matter which one was processed first
+	for _, yf := range instructions.YamlFiles {
+		pChan <- yf
+	}
+
+	close(pChan)
+
+	return PostProcessHandler(cfg, pChan)
 }
 
 // PostProcessHandler waits for YamlFile objects and preforms post overlay tasks like rendering,
-- 
2.43.0


From 57b8ef14b7651b25cf5dc1a333b958f7600bac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 11/51] fix: do not panic when injecting without a path or into
 a deleted document

---
 internal/actions/merge.go      | 2 +-
 internal/builder/path.go       | 4 ++++
 internal/overlays/onmissing.go | 5 ++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..12c376b 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,7 +55,7 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
+	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
 
 		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..62ce555 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -118,6 +118,10 @@ func newPath(l *lexer) (*Path, error) {
 }
 
 func (paths *Paths) BuildPaths() (*yaml.Node, error) {
+	if len(*paths) == 0 {
+		return nil, fmt.Errorf("%w, no path to build", ErrInvalidPathSyntax)
+	}
+
 	yamlNodes := make([]*yaml.Node, len(*paths))
 
 	for i, p := range *paths {
diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 87d16c6..36ba75d 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -65,7 +65,10 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
 	}
 
-	y, _ := bps.BuildPaths()
+	y, err := bps.BuildPaths()
+	if err != nil {
+		return fmt.Errorf("failed to build inject path %s, %w", ip, err)
+	}
 
 	err = actions.MergeNode(node, y)
 	if err != nil {
-- 
2.43.0


From 695ea87487a02013671ddf7c4c5bc1dd8f653388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 12/51] fix: report a negative indent level instead of a panic

---
 internal/instructions/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..fa5a6fa 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrNegativeIndent occurs when the requested indent level is below zero.
+var ErrNegativeIndent = errors.New("indent level must not be negative")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -115,7 +119,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	ye.SetIndent(viper.GetInt("indentLevel"))
+	indent := viper.GetInt("indentLevel")
+	if indent < 0 {
+		return nil, fmt.Errorf("%w: %d", ErrNegativeIndent, indent)
+	}
+
+	ye.SetIndent(indent)
 
 	for i, node := range nodes {
 		if len(node.Content) == 0 {
-- 
2.43.0


From 5b7809eae05c072c21d365a69b6ef4fddbedd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 13/51] fix: keep the comments of a value which the overlay
 does not set

---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 12c376b..993b9d7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From 814e99c343a2090669cb26822483eea329f7d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 14/51] fix: combine integers of any size and notation

---
 internal/actions/combine.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..2b48724 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -6,7 +6,9 @@ package actions
 import (
 	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 )
@@ -14,6 +16,9 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrNotAnInteger occurs when an integer is attempted to be combined with a value which is not an integer.
+var ErrNotAnInteger = errors.New("not an integer")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
@@ -23,17 +28,17 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	switch originalValue.Tag {
 	case "!!int":
-		o, err := strconv.Atoi(originalValue.Value)
+		o, err := parseInt(originalValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", originalValue.Value, err)
+			return err
 		}
 
-		n, err := strconv.Atoi(newValue.Value)
+		n, err := parseInt(newValue.Value)
 		if err != nil {
-			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
+			return err
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		originalValue.Value = o.Add(o, n).String()
 
 		return nil
 
@@ -57,3 +62,14 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	return nil
 }
+
+// parseInt reads an integer of any size in the notations known to YAML, e.g. 12, 0x1f, 0o17, 017 or 1_000.
+func parseInt(s string) (*big.Int, error) {
+	// YAML is more liberal than Go in the placement of underscores
+	i, ok := new(big.Int).SetString(strings.ReplaceAll(s, "_", ""), 0)
+	if !ok {
+		return nil, fmt.Errorf("failed to convert %q to int for merging: %w", s, ErrNotAnInteger)
+	}
+
+	return i, nil
+}
-- 
2.43.0


From f6adf6e15aab5de6c007fa9cd1554e071d3e2eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 15/51] fix: tag a concatenated value as a string

---
 internal/actions/combine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 2b48724..54819ae 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -60,6 +60,12 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	originalValue.Value += newValue.Value
 
+	switch originalValue.Tag {
+	case "!!null", "!!float", "!!timestamp":
+		// the concatenated value is not of the original type any more
+		originalValue.Tag = "!!str"
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5e42c35599e008664c1e54f368999fc2a376334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 16/51] fix: keep text of the original value which looks like a
 format marker

---
 internal/actions/format.go | 44 ++++++++++----------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..9600875 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -13,8 +13,6 @@ import (
 )
 
 func format(formatStr string, v ...interface{}) string {
-	v = sanitizeValues(v...)
-
 	return doFormat(formatStr, v...)
 }
 
@@ -37,22 +35,6 @@ func sanitizeNode(n ...*yaml.Node) {
 	}
 }
 
-func sanitizeValues(v ...interface{}) []interface{} {
-	for _, t := range []string{
-		ValueMarker,
-		LineCommentMarker,
-		HeadCommentMarker,
-		FootCommentMarker,
-		KeyMarker,
-	} {
-		for j := range v {
-			v[j] = strings.ReplaceAll(v[j].(string), t, "")
-		}
-	}
-
-	return v
-}
-
 func doFormat(s string, values ...interface{}) string {
 	markers := []string{
 		ValueMarker,
@@ -72,9 +54,9 @@ func doFormat(s string, values ...interface{}) string {
 
 	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
 
-	matches := re.FindAllStringSubmatch(s, -1)
-
-	for _, match := range matches {
+	// all markers are replaced in one pass, so that markers within the substituted values are left alone
+	return re.ReplaceAllStringFunc(s, func(m string) string {
+		match := re.FindStringSubmatch(m)
 		result := make(map[string]string)
 
 		for i, name := range re.SubexpNames() {
@@ -83,23 +65,19 @@ func doFormat(s string, values ...interface{}) string {
 			}
 		}
 
-		if result["marker"] != "" {
-			marker := valueMap[result["marker"]]
+		marker := valueMap[result["marker"]]
 
-			if result["command"] != "" {
-				var err error
+		if result["command"] != "" {
+			var err error
 
-				marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
-				if err != nil {
-					log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
-				}
+			marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
+			if err != nil {
+				log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
 			}
-
-			s = strings.Replace(s, match[0], marker, 1)
 		}
-	}
 
-	return s
+		return marker
+	})
 }
 
 func processSedCommand(command, value string) (string, error) {
-- 
2.43.0


From 7bd9e26cf4b32be53e4e07e0f1dc9c8b3b8c946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 17/51] fix: merge values files as plain data without
 interpreting format markers

---
 internal/instructions/values.go | 62 ++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 44d2dd1..f5891e2 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -6,17 +6,14 @@ package instructions
 import (
 	"fmt"
 
-	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
 func getValues(fileNames []string) (interface{}, error) {
 	var values interface{}
 
-	yamlValues := make([]*yaml.Node, len(fileNames))
-
-	for i, v := range fileNames {
-		var yamlValue yaml.Node
+	for _, v := range fileNames {
+		var fileValues interface{}
 
 		reader, err := ReadStream(v)
 		if err != nil {
@@ -25,27 +22,60 @@ func getValues(fileNames []string) (interface{}, error) {
 
 		yd := yaml.NewDecoder(reader)
 
-		if err := yd.Decode(&yamlValue); err != nil {
+		if err := yd.Decode(&fileValues); err != nil {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
-		yamlValues[i] = &yamlValue
+		values = mergeValues(values, fileValues)
 	}
 
-	if len(yamlValues) != 0 {
-		if err := actions.MergeNode(yamlValues...); err != nil {
-			return nil, fmt.Errorf("failed to merge yaml values: %w", err)
+	return values, nil
+}
+
+// mergeValues merges maps and appends lists, any other value is overridden. Unlike the merge action of an overlay
+// the values are plain data, so there is no special meaning to format markers.
+func mergeValues(o, n interface{}) interface{} {
+	switch nv := n.(type) {
+	case map[string]interface{}:
+		if ov, ok := o.(map[string]interface{}); ok {
+			for k, v := range nv {
+				ov[k] = mergeValues(ov[k], v)
+			}
+
+			return ov
+		}
+	case []interface{}:
+		if ov, ok := o.([]interface{}); ok {
+			return append(ov, nv...)
 		}
+	}
 
-		b, err := yaml.Marshal(yamlValues[0])
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal yaml values: %w", err)
+	// maps which do not only have strings as keys
+	if ov, ok := genericMap(o); ok {
+		if nv, ok := genericMap(n); ok {
+			for k, v := range nv {
+				ov[k] = mergeValues(ov[k], v)
+			}
+
+			return ov
 		}
+	}
 
-		if err := yaml.Unmarshal(b, &values); err != nil {
-			return nil, fmt.Errorf("failed to unmarshal yaml values: %w", err)
+	return n
+}
+
+func genericMap(v interface{}) (map[interface{}]interface{}, bool) {
+	switch m := v.(type) {
+	case map[interface{}]interface{}:
+		return m, true
+	case map[string]interface{}:
+		result := make(map[interface{}]interface{}, len(m))
+		for k, e := range m {
+			result[k] = e
 		}
+
+		return result, true
 	}
 
-	return values, nil
+	return nil, false
 }
-- 
2.43.0


From d7e329c13a47b6b2a510e73afb8369cb4ca42ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 18/51] fix: compare values of a documentQuery without regard
 to anchors

---
 internal/overlays/documentquery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 9609f86..dfac3e1 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,7 +41,7 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style")
+	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style", "Anchor")
 
 	if dq.Conditions == nil {
 		return true
@@ -55,6 +55,10 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
+				if result.Kind == yaml.AliasNode {
+					result = result.Alias
+				}
+
 				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
 					return false
 				}
-- 
2.43.0


From fcb3ae7427ba1130117a12b9b39d9ad4cb1a7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 19/51] fix: report an output file which could not be closed

---
 internal/instructions/config.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index fa5a6fa..96bc57c 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -63,13 +63,23 @@ func (cfg *Config) doPostProcessing(yf *YamlFile) error {
 			return err
 		}
 
-		defer CloseFile(o)
 	}
 
 	if _, err = output.WriteTo(o); err != nil {
+		if o != os.Stdout {
+			CloseFile(o)
+		}
+
 		return fmt.Errorf("failed to %w", err)
 	}
 
+	// a file which could not be closed may not have been written completely
+	if o != os.Stdout {
+		if err := o.Close(); err != nil {
+			return fmt.Errorf("failed to %w", err)
+		}
+	}
+
 	output.Reset()
 
 	return nil
-- 
2.43.0


From 1f16780a3aef9a5783aea900783440133239020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 20/51] fix: report empty list entries of the instructions
 instead of a panic

---
 internal/instructions/instructions.go |  4 +++
 internal/instructions/yamlfile.go     | 31 ++++++++++++++++++++++
 internal/overlays/overlay.go          | 37 +++++++++++++++++++++++++++
 3 files changed, 72 insertions(+)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index b8d6057..fb71ecb 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -106,6 +106,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
+	if err := checkOverlays(instructions.CommonOverlays); err != nil {
+		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
+	}
+
 	return &instructions, nil
 }
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 9c197d7..bc9cbf6 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -64,6 +64,26 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, yf := range yft {
+		if yf == nil {
+			return fmt.Errorf("%w: yamlFiles at line %d column %d", overlays.ErrEmptyEntry, value.Line, value.Column)
+		}
+
+		if err := checkOverlays(yf.Overlays); err != nil {
+			return err
+		}
+
+		for _, d := range yf.Documents {
+			if d == nil {
+				return fmt.Errorf("%w: documents", overlays.ErrEmptyEntry)
+			}
+
+			if err := checkOverlays(d.Overlays); err != nil {
+				return err
+			}
+		}
+	}
+
 	y := YamlFiles(yft)
 	if err := y.expandDirectories(); err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
@@ -82,6 +102,17 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+// checkOverlays makes sure there are no null values within a list of overlays.
+func checkOverlays(os []*overlays.Overlay) error {
+	for _, o := range os {
+		if o == nil {
+			return fmt.Errorf("%w: overlays", overlays.ErrEmptyEntry)
+		}
+	}
+
+	return nil
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..de7eb0f 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -13,6 +14,9 @@ import (
 
 var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 
+// ErrEmptyEntry occurs when a list of the instructions has an entry without content.
+var ErrEmptyEntry = errors.New("empty entry in list")
+
 type Overlay struct {
 	Name          string          `yaml:"name,omitempty"`
 	Query         Queries         `yaml:"query,omitempty"`
@@ -87,6 +91,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := o.checkEmptyEntries(); err != nil {
+		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
@@ -96,3 +104,32 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 
 	return nil
 }
+
+// checkEmptyEntries makes sure there are no null values within the lists of an overlay.
+func (o *Overlay) checkEmptyEntries() error {
+	queries := []Queries{o.Query, o.OnMissing.InjectPath}
+
+	for _, dq := range o.DocumentQuery {
+		if dq == nil {
+			return fmt.Errorf("%w: documentQuery", ErrEmptyEntry)
+		}
+
+		for _, c := range dq.Conditions {
+			if c == nil {
+				return fmt.Errorf("%w: conditions", ErrEmptyEntry)
+			}
+
+			queries = append(queries, c.Query)
+		}
+	}
+
+	for _, mq := range queries {
+		for _, q := range mq {
+			if q.yamlPath == nil {
+				return fmt.Errorf("%w: query", ErrEmptyEntry)
+			}
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 9d0e79dd7dffc9c9eec8b1d99f676c6b651e6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 21/51] fix: keep the output valid when an anchor is no longer
 available for its aliases

---
 internal/actions/alias.go       | 101 ++++++++++++++++++++++++++++++++
 internal/instructions/config.go |   8 +++
 internal/overlays/overlay.go    |   4 ++
 3 files changed, 113 insertions(+)
 create mode 100644 internal/actions/alias.go

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
new file mode 100644
index 0000000..d411dc1
--- /dev/null
+++ b/internal/actions/alias.go
@@ -0,0 +1,101 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"errors"
+	"fmt"
+	"reflect"
+
+	"gopkg.in/yaml.v3"
+)
+
+// ErrRecursiveAlias occurs when a value contains itself by means of an alias.
+var ErrRecursiveAlias = errors.New("value contains itself")
+
+// ResolveAliases replaces each alias within a document, which can no longer be expressed as an alias, with a copy of
+// the value it refers to. This is the case when the anchored value was deleted, replaced or is not part of the document.
+func ResolveAliases(document *yaml.Node) error {
+	return resolveAliases(document, make(map[string]*yaml.Node), make(map[*yaml.Node]bool))
+}
+
+func resolveAliases(n *yaml.Node, anchors map[string]*yaml.Node, resolving map[*yaml.Node]bool) error {
+	if n.Kind == yaml.AliasNode {
+		anchored, ok := anchors[n.Value]
+		if ok && (anchored == n.Alias || reflect.DeepEqual(anchored, n.Alias)) {
+			return nil
+		}
+
+		alias := n.Alias
+		if resolving[alias] {
+			return fmt.Errorf("%w: alias %q", ErrRecursiveAlias, n.Value)
+		}
+
+		resolving[alias] = true
+		defer delete(resolving, alias)
+
+		replaceAlias(n)
+	}
+
+	if n.Anchor != "" {
+		anchors[n.Anchor] = n
+	}
+
+	for _, c := range n.Content {
+		if err := resolveAliases(c, anchors, resolving); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// CheckRecursion makes sure that a value does not contain itself by means of an alias.
+func CheckRecursion(value *yaml.Node) error {
+	return checkRecursion(value, make(map[*yaml.Node]bool))
+}
+
+func checkRecursion(n *yaml.Node, parents map[*yaml.Node]bool) error {
+	if n.Kind == yaml.AliasNode {
+		n = n.Alias
+	}
+
+	if parents[n] {
+		return fmt.Errorf("%w: anchor %q", ErrRecursiveAlias, n.Anchor)
+	}
+
+	parents[n] = true
+	defer delete(parents, n)
+
+	for _, c := range n.Content {
+		if err := checkRecursion(c, parents); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// replaceAlias turns an alias into a copy of the value it refers to, the comments of the alias are kept.
+func replaceAlias(n *yaml.Node) {
+	value := copyWithoutAnchors(n.Alias)
+
+	value.HeadComment = n.HeadComment
+	value.LineComment = n.LineComment
+	value.FootComment = n.FootComment
+
+	*n = *value
+}
+
+func copyWithoutAnchors(n *yaml.Node) *yaml.Node {
+	result := *n
+	result.Anchor = ""
+	result.Content = nil
+
+	for _, c := range n.Content {
+		result.Content = append(result.Content, copyWithoutAnchors(c))
+	}
+
+	return &result
+}
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 96bc57c..a375f32 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -145,6 +145,10 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 			output.WriteString("---\n")
 		}
 
+		if err := actions.ResolveAliases(node); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
+
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
@@ -193,6 +197,10 @@ func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
 		}
 
+		if err := actions.CheckRecursion(&cfg.Overlay.Value); err != nil {
+			return fmt.Errorf("unable to read overlay value from flag, %w", err)
+		}
+
 		if cfg.Overlay.Value.Kind == yaml.DocumentNode && cfg.Overlay.Value.Content != nil {
 			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]
 		}
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index de7eb0f..5f976ce 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -91,6 +91,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := actions.CheckRecursion(&o.Value); err != nil {
+		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
+	}
+
 	if err := o.checkEmptyEntries(); err != nil {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
-- 
2.43.0


From 378969c8c18df4bff3a5ffddb556c1a2b6fcf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 22/51] fix: merge with the value of an alias

---
 internal/actions/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 993b9d7..0c83cc3 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,6 +36,11 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
+	// an alias stands for the value it refers to, which must neither be lost nor be changed in its other places
+	if o.Kind == yaml.AliasNode {
+		replaceAlias(o)
+	}
+
 	switch n.Kind {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
-- 
2.43.0


From 4aef6e195de47a6e326d3bf7a8dd08098ff01ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 23/51] fix: apply the comment of a key with format markers
 only once

---
 internal/actions/merge.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 0c83cc3..9f0a126 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -96,7 +96,11 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if foundMarker {
+				mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
+			} else {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
@@ -105,8 +109,6 @@ func mergeMap(o, n *yaml.Node) error {
 			if !foundMarker {
 				break
 			}
-
-			mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
 		}
 
 		if !resultFound {
-- 
2.43.0


From aaa44e51d3443f241f1e930b79072eaeb679ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 24/51] fix: meet a documentQuery condition when one of the
 results has the value

---
 internal/overlays/documentquery.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index dfac3e1..0976b2b 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -54,15 +54,22 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 		}
 
 		if !c.Value.IsZero() {
+			var found bool
+
+			// one of the results has to match the expected value
 			for _, result := range results {
 				if result.Kind == yaml.AliasNode {
 					result = result.Alias
 				}
 
-				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
-					return false
+				if found = cmp.Equal(*result, c.Value, compareOptions); found {
+					break
 				}
 			}
+
+			if !found {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From 805731b48740e2cddaa869e2f1ad05862f787345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 25/51] fix: start the first document which is output with a
 separator

The separator was missing if the first document of a file had been deleted,
so with --stdout the rest of it became part of the document before.
---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index a375f32..cb5376d 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -136,12 +136,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(indent)
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 5ef9675432d408c2c8235e0ccc25804bdaa11771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 26/51] fix: report malformed YAML on which the parser panics
 as an error

The parser panics on some malformed input (CVE-2022-28948), which crashed yot
for such source, instruction and values files and flag values.
---
 internal/actions/action.go            |  8 ++++++--
 internal/actions/recover.go           | 19 +++++++++++++++++++
 internal/instructions/config.go       |  8 ++++++--
 internal/instructions/instructions.go |  5 ++++-
 internal/overlays/query.go            |  5 ++++-
 5 files changed, 39 insertions(+), 6 deletions(-)
 create mode 100644 internal/actions/recover.go

diff --git a/internal/actions/action.go b/internal/actions/action.go
index e2b6144..9fa3739 100644
--- a/internal/actions/action.go
+++ b/internal/actions/action.go
@@ -74,7 +74,9 @@ func (a Action) MarshalYAML() (interface{}, error) {
 	return a.String(), nil
 }
 
-func (a *Action) Set(val string) error {
+func (a *Action) Set(val string) (err error) {
+	defer RecoverParser(&err)
+
 	if err := yaml.Unmarshal([]byte(val), a); err != nil {
 		return fmt.Errorf("%w", err)
 	}
@@ -131,7 +133,9 @@ func (a OnMissingAction) MarshalYAML() (interface{}, error) {
 	return a.String(), nil
 }
 
-func (a *OnMissingAction) Set(val string) error {
+func (a *OnMissingAction) Set(val string) (err error) {
+	defer RecoverParser(&err)
+
 	if err := yaml.Unmarshal([]byte(val), a); err != nil {
 		return fmt.Errorf("%w", err)
 	}
diff --git a/internal/actions/recover.go b/internal/actions/recover.go
new file mode 100644
index 0000000..bb45d83
--- /dev/null
+++ b/internal/actions/recover.go
@@ -0,0 +1,19 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"errors"
+	"fmt"
+)
+
+// ErrMalformedYaml occurs when the YAML parser fails unexpectedly.
+var ErrMalformedYaml = errors.New("malformed yaml")
+
+// RecoverParser has to be deferred by functions which parse YAML, the parser panics on some malformed input.
+func RecoverParser(err *error) {
+	if p := recover(); p != nil {
+		*err = fmt.Errorf("%w: %v", ErrMalformedYaml, p)
+	}
+}
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index cb5376d..42976c1 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -163,7 +163,9 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 	return output, nil
 }
 
-func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
+func (cfg *Config) ReadAdHocPaths(i *Instructions) (err error) {
+	defer actions.RecoverParser(&err)
+
 	if cfg.Path != "" {
 		yfs := YamlFiles{
 			&YamlFile{
@@ -191,7 +193,9 @@ func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 	return nil
 }
 
-func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
+func (cfg *Config) ReadAdHocOverlays(i *Instructions) (err error) {
+	defer actions.RecoverParser(&err)
+
 	if cfg.Overlay.Query != nil {
 		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index fb71ecb..dc1f5fc 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -12,6 +12,7 @@ import (
 	"strings"
 
 	"github.com/spf13/viper"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
 	"gopkg.in/yaml.v3"
 )
@@ -68,7 +69,9 @@ func (cfg *Config) GetInstructions() (*Instructions, error) {
 }
 
 // ReadInstructionFile reads a file and decodes it into an Instructions struct.
-func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
+func (cfg *Config) ReadInstructionFile() (result *Instructions, err error) {
+	defer actions.RecoverParser(&err)
+
 	var reader io.Reader
 
 	var values interface{}
diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..cc9ce5c 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/vmware-labs/yaml-jsonpath/pkg/yamlpath"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
@@ -99,7 +100,9 @@ func (mq *Queries) Find(node *yaml.Node) []*yaml.Node {
 	return results
 }
 
-func (mq *Queries) Set(val string) error {
+func (mq *Queries) Set(val string) (err error) {
+	defer actions.RecoverParser(&err)
+
 	var q Query
 	if err := yaml.Unmarshal([]byte(val), &q); err != nil {
 		return fmt.Errorf("%w", err)
-- 
2.43.0


From 92d631ac55548ae9e6d2c353cdbddda426884258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 27/51] fix: report a query which cannot be evaluated as an
 error

A filter which compares numbers in a notation the JSONPath library does not
know, such as 0x10 or .inf, crashed yot.
---
 internal/overlays/overlay.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index 5f976ce..eb510cf 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -17,6 +17,9 @@ var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 // ErrEmptyEntry occurs when a list of the instructions has an entry without content.
 var ErrEmptyEntry = errors.New("empty entry in list")
 
+// ErrQueryFailed occurs when a query cannot be evaluated against a document.
+var ErrQueryFailed = errors.New("unable to evaluate query")
+
 type Overlay struct {
 	Name          string          `yaml:"name,omitempty"`
 	Query         Queries         `yaml:"query,omitempty"`
@@ -30,11 +33,14 @@ type Overlay struct {
 func (o *Overlay) Apply(n *yaml.Node) error {
 	log.Debugf("Checking Document Queries for [%q]", o.Name)
 
-	if ok := o.DocumentQuery.checkQueries(n); !ok {
-		return nil
+	results, ok, err := o.find(n)
+	if err != nil {
+		return err
 	}
 
-	results := o.Query.Find(n)
+	if !ok {
+		return nil
+	}
 
 	if results == nil {
 		log.Debugf("No results found checking onMissing")
@@ -45,6 +51,22 @@ func (o *Overlay) Apply(n *yaml.Node) error {
 	return o.doAction(n, results)
 }
 
+// find returns the results of the queries, and if the document is selected by the document queries at all.
+func (o *Overlay) find(n *yaml.Node) (results []*yaml.Node, ok bool, err error) {
+	// a filter which compares numbers in a notation like 0x10 or .inf makes the JSONPath library panic
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("%w of overlay [%q]: %v", ErrQueryFailed, o.Name, p)
+		}
+	}()
+
+	if ok = o.DocumentQuery.checkQueries(n); ok {
+		results = o.Query.Find(n)
+	}
+
+	return results, ok, nil
+}
+
 func (o *Overlay) CheckDocumentIndex(current int) bool {
 	if o.DocumentIndex != nil {
 		for _, i := range o.DocumentIndex {
-- 
2.43.0


From 272daabb1c9fafc2e266f110922f2b9b254b5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 28/51] fix: quote strings whose text is lost in block or plain
 style

The YAML library drops leading line breaks of block scalars, writes leading
tabs of them in a way it cannot read, and writes the string << as merge key.
---
 internal/actions/style.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 4aa37c0..0db9617 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -79,10 +79,20 @@ func setStyle(s Style, n ...*yaml.Node) {
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(s)
+
+			if nv.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 && needsQuotes(nv) {
+				nv.Style = nv.Style&^(yaml.LiteralStyle|yaml.FoldedStyle) | yaml.DoubleQuotedStyle
+			}
 		}
 	}
 }
 
+// needsQuotes tells whether a scalar has to be quoted as its text would be lost in any other style: the YAML library
+// drops leading line breaks of block scalars and does not accept their leading tabs, and a plain << is a merge key.
+func needsQuotes(n *yaml.Node) bool {
+	return strings.IndexAny(n.Value, "\n\t\u0085\u2028\u2029") == 0 || n.Value == "<<" && n.ShortTag() == "!!str"
+}
+
 func GetStyleFromConfig(v ...string) Styles {
 	var result Styles
 
-- 
2.43.0


From 4a2dcbe57235f49e9b24258ea7301d51d2db046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 29/51] fix: keep line comments of collections where the YAML
 library can write them

---
 internal/actions/comments.go    | 64 +++++++++++++++++++++++++++++++++
 internal/instructions/config.go |  2 ++
 2 files changed, 66 insertions(+)
 create mode 100644 internal/actions/comments.go

diff --git a/internal/actions/comments.go b/internal/actions/comments.go
new file mode 100644
index 0000000..b9c087f
--- /dev/null
+++ b/internal/actions/comments.go
@@ -0,0 +1,64 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"gopkg.in/yaml.v3"
+)
+
+// PlaceComments moves the line comments which the YAML library can not write at the place they are attached to.
+// A line comment of a collection in block style would end up at some other node or get lost, and a line comment of
+// a key would separate the key from a value in flow style, or from the anchor or the tag of its value.
+func PlaceComments(n *yaml.Node) {
+	placeComments(n, false)
+}
+
+func placeComments(n *yaml.Node, flow bool) {
+	flow = flow || n.Style&yaml.FlowStyle != 0
+
+	for i, c := range n.Content {
+		block := isCollection(c) && len(c.Content) > 0 && c.Style&yaml.FlowStyle == 0 && !flow
+
+		switch {
+		case n.Kind == yaml.MappingNode && i%2 == 1:
+			placePairComments(n.Content[i-1], c, block)
+		case n.Kind == yaml.SequenceNode && block:
+			moveComment(&c.HeadComment, &c.LineComment)
+		case n.Kind == yaml.DocumentNode && block:
+			moveComment(&n.HeadComment, &c.LineComment)
+		}
+
+		placeComments(c, flow)
+	}
+}
+
+func placePairComments(key, value *yaml.Node, block bool) {
+	switch {
+	case block && (value.Anchor != "" || value.Style&yaml.TaggedStyle != 0):
+		moveComment(&key.HeadComment, &key.LineComment)
+		moveComment(&key.HeadComment, &value.LineComment)
+	case block && key.LineComment == "":
+		moveComment(&key.LineComment, &value.LineComment)
+	case block:
+		moveComment(&key.HeadComment, &value.LineComment)
+	case value.LineComment == "":
+		moveComment(&value.LineComment, &key.LineComment)
+	default:
+		moveComment(&key.HeadComment, &key.LineComment)
+	}
+}
+
+// moveComment appends a comment to another comment.
+func moveComment(to, from *string) {
+	if *to != "" && *from != "" {
+		*to += "\n"
+	}
+
+	*to += *from
+	*from = ""
+}
+
+func isCollection(n *yaml.Node) bool {
+	return n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode
+}
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 42976c1..5be502c 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -152,6 +152,8 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
+		actions.PlaceComments(node)
+
 		err := ye.Encode(node)
 		if err != nil {
 			return nil, fmt.Errorf("%w", err)
-- 
2.43.0


From 9530b0b4732164a468d5db9066c39b85916aa94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 30/51] fix: compare values of a documentQuery by type and
 content only

---
 internal/overlays/documentquery.go | 45 ++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 0976b2b..454b685 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -4,8 +4,6 @@
 package overlays
 
 import (
-	"github.com/google/go-cmp/cmp"
-	"github.com/google/go-cmp/cmp/cmpopts"
 	"gopkg.in/yaml.v3"
 )
 
@@ -41,8 +39,6 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style", "Anchor")
-
 	if dq.Conditions == nil {
 		return true
 	}
@@ -58,11 +54,7 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 			// one of the results has to match the expected value
 			for _, result := range results {
-				if result.Kind == yaml.AliasNode {
-					result = result.Alias
-				}
-
-				if found = cmp.Equal(*result, c.Value, compareOptions); found {
+				if found = equalValues(result, &c.Value, make(map[[2]*yaml.Node]bool)); found {
 					break
 				}
 			}
@@ -75,3 +67,38 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 	return true
 }
+
+// equalValues compares type and content of two values, no matter how they are presented. Pairs of values
+// which were compared before are skipped, as aliases may refer to the same value many times.
+func equalValues(a, b *yaml.Node, compared map[[2]*yaml.Node]bool) bool {
+	if a.Kind == yaml.AliasNode {
+		a = a.Alias
+	}
+
+	if b.Kind == yaml.AliasNode {
+		b = b.Alias
+	}
+
+	pair := [2]*yaml.Node{a, b}
+	if compared[pair] {
+		return true
+	}
+
+	compared[pair] = true
+
+	if a.Kind != b.Kind || a.ShortTag() != b.ShortTag() || len(a.Content) != len(b.Content) {
+		return false
+	}
+
+	if a.Value != b.Value && a.ShortTag() != "!!null" {
+		return false
+	}
+
+	for i := range a.Content {
+		if !equalValues(a.Content[i], b.Content[i], compared) {
+			return false
+		}
+	}
+
+	return true
+}
-- 
2.43.0


From 69671e1570620d15f71cfc5529bb8327e54cdf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 31/51] fix: keep the type of a key only if its text after
 format markers allows it

---
 internal/actions/merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 9f0a126..67e7a31 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -98,6 +98,7 @@ func mergeMap(o, n *yaml.Node) error {
 
 			if foundMarker {
 				mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
+				retagKey(o.Content[oi], n.Content[ni])
 			} else {
 				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
 			}
@@ -121,6 +122,17 @@ func mergeMap(o, n *yaml.Node) error {
 	return nil
 }
 
+// retagKey gives a key the type of the key in the overlay, if its new text is no longer of the original type.
+func retagKey(o, n *yaml.Node) {
+	switch o.Tag {
+	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp":
+		text := yaml.Node{Kind: yaml.ScalarNode, Value: o.Value}
+		if text.ShortTag() != o.Tag {
+			o.Tag = n.Tag
+		}
+	}
+}
+
 func mergeArray(o, n *yaml.Node) error {
 	if o.Kind != yaml.SequenceNode {
 		o.Kind = yaml.SequenceNode
-- 
2.43.0


From 97f20044e4b7516f29658d44813d0f1cb2a09078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 32/51] fix: substitute the value of an alias for the format
 markers of its key

---
 internal/actions/merge.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 67e7a31..2fe6c72 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,10 +36,7 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
-	// an alias stands for the value it refers to, which must neither be lost nor be changed in its other places
-	if o.Kind == yaml.AliasNode {
-		replaceAlias(o)
-	}
+	resolveAlias(o)
 
 	switch n.Kind {
 	case yaml.DocumentNode:
@@ -59,6 +56,13 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 	return nil
 }
 
+// resolveAlias makes an alias the value it stands for, which must neither be lost nor be changed in its other places.
+func resolveAlias(o *yaml.Node) {
+	if o.Kind == yaml.AliasNode {
+		replaceAlias(o)
+	}
+}
+
 func mergeDocument(o, n *yaml.Node) error {
 	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
@@ -93,6 +97,8 @@ func mergeMap(o, n *yaml.Node) error {
 
 			resultFound = true
 
+			resolveAlias(o.Content[oi+1])
+
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-- 
2.43.0


From f7d72679b60f2eef7bc961471bd055cb27433b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 33/51] fix: keep the text of block scalars which the YAML
 library would change

---
 internal/actions/style.go | 54 +++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 0db9617..a17143b 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -4,11 +4,19 @@
 package actions
 
 import (
+	"regexp"
 	"strings"
 
 	"gopkg.in/yaml.v3"
 )
 
+var (
+	// foldsBadly matches text which does not survive folding.
+	foldsBadly = regexp.MustCompile(`[\n\x{0085}\x{2028}\x{2029}][ \t\n\x{0085}\x{2028}\x{2029}]`)
+	// endsWithEmptyLine matches text which has an empty line at its end.
+	endsWithEmptyLine = regexp.MustCompile(`[\n\x{0085}\x{2028}\x{2029}][\n\x{0085}\x{2028}\x{2029}]$`)
+)
+
 type Style uint
 
 type Styles []Style
@@ -77,20 +85,50 @@ func setStyle(s Style, n ...*yaml.Node) {
 			nv.Style = yaml.Style(s)
 
 			setStyle(s, nv.Content...)
-		case yaml.ScalarNode:
-			nv.Style = yaml.Style(s)
 
-			if nv.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 && needsQuotes(nv) {
-				nv.Style = nv.Style&^(yaml.LiteralStyle|yaml.FoldedStyle) | yaml.DoubleQuotedStyle
+			if nv.Kind == yaml.DocumentNode && nv.FootComment != "" {
+				quoteLastScalar(nv)
 			}
+		case yaml.ScalarNode:
+			nv.Style = scalarStyle(yaml.Style(s), nv)
 		}
 	}
 }
 
-// needsQuotes tells whether a scalar has to be quoted as its text would be lost in any other style: the YAML library
-// drops leading line breaks of block scalars and does not accept their leading tabs, and a plain << is a merge key.
-func needsQuotes(n *yaml.Node) bool {
-	return strings.IndexAny(n.Value, "\n\t\u0085\u2028\u2029") == 0 || n.Value == "<<" && n.ShortTag() == "!!str"
+// quoteLastScalar quotes the last scalar of a document which is followed by a comment, if the empty line in front of
+// the comment would become part of its text.
+func quoteLastScalar(n *yaml.Node) {
+	for len(n.Content) > 0 {
+		n = n.Content[len(n.Content)-1]
+	}
+
+	if n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) == 0 && endsWithEmptyLine.MatchString(n.Value) {
+		n.Style = n.Style&^(yaml.LiteralStyle|yaml.FoldedStyle) | yaml.DoubleQuotedStyle
+	}
+}
+
+// scalarStyle returns the given style, or the closest one in which the YAML library does not lose any text: it drops
+// or does not accept leading whitespace of block scalars, adds line breaks when it folds indented or empty lines,
+// and a plain << is a merge key.
+func scalarStyle(s yaml.Style, n *yaml.Node) yaml.Style {
+	const block = yaml.LiteralStyle | yaml.FoldedStyle
+
+	if s&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle) != 0 {
+		return s
+	}
+
+	isBlock := s&block != 0 || strings.Contains(n.Value, "\n")
+
+	switch {
+	case n.Value == "<<" && n.ShortTag() == "!!str",
+		strings.IndexAny(n.Value, "\n\t\u0085\u2028\u2029") == 0,
+		isBlock && strings.HasPrefix(n.Value, " "):
+		return s&^block | yaml.DoubleQuotedStyle
+	case s&yaml.FoldedStyle != 0 && foldsBadly.MatchString(n.Value):
+		return s&^block | yaml.LiteralStyle
+	}
+
+	return s
 }
 
 func GetStyleFromConfig(v ...string) Styles {
-- 
2.43.0


From 8957b6a2a571cb217dead643fec60d3b27e25062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 34/51] fix: accept the documented style name singleQuote on
 the command line and its variant in settings

---
 internal/actions/style.go | 4 ++--
 internal/commands/docs.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index a17143b..c857399 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -57,7 +57,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
@@ -144,7 +144,7 @@ func GetStyleFromConfig(v ...string) Styles {
 				result = append(result, TaggedStyle)
 			case "doublequoted", "doublequote", "double", "dq":
 				result = append(result, DoubleQuotedStyle)
-			case "singlequoted", "singlequote", "single", "sq":
+			case "singlequoted", "singlequote", "singleqoute", "single", "sq":
 				result = append(result, SingleQuotedStyle)
 			case "literal", "l":
 				result = append(result, LiteralStyle)
diff --git a/internal/commands/docs.go b/internal/commands/docs.go
index 135ce7b..7001193 100644
--- a/internal/commands/docs.go
+++ b/internal/commands/docs.go
@@ -76,7 +76,7 @@ Multiple values can be provided to achieve the desired result, valid values are:
 	NORMAL:       {"normal", "n"},
 	TAGGED:       {"tagged", "tag", "t"},
 	DOUBLEQUOTED: {"doubleQuoted", "doubleQuote", "double", "dq"},
-	SINGLEQUOTED: {"singleQuoted", "singleQoute", "single", "sq"},
+	SINGLEQUOTED: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 	LITERAL:      {"literal", "l"},
 	FOLDED:       {"folded", "fold", "fo"},
 	FLOW:         {"flow", "fl"}
-- 
2.43.0


From 81d882f65ca517a2d04eb12072e22695ca4f1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 35/51] fix: report an unknown onMissing action

---
 internal/actions/action.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/actions/action.go b/internal/actions/action.go
index 9fa3739..ae4c5ff 100644
--- a/internal/actions/action.go
+++ b/internal/actions/action.go
@@ -119,12 +119,18 @@ func (a *OnMissingAction) UnmarshalYAML(value *yaml.Node) error {
 	y = strings.ToLower(y)
 
 	toID := map[string]OnMissingAction{
+		"":        Default,
 		"default": Default,
 		"ignore":  Ignore,
 		"inject":  Inject,
 	}
 
-	*a = toID[y]
+	id, ok := toID[y]
+	if !ok {
+		return fmt.Errorf("%w, %s", ErrInvalidAction, y)
+	}
+
+	*a = id
 
 	return nil
 }
-- 
2.43.0


From 1428d35e594de93dede76b5e00aedd41aa1a6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 36/51] fix: document the log level which is the default

---
 docs/sections/commandUsage.md | 2 +-
 docs/sections/configFile.md   | 2 +-
 docs/sections/envVars.md      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/sections/commandUsage.md b/docs/sections/commandUsage.md
index 75a5bc3..f8deba7 100644
--- a/docs/sections/commandUsage.md
+++ b/docs/sections/commandUsage.md
@@ -41,7 +41,7 @@ Flags:
                                         NOTICE:   {"notice", "note", "n"},
                                         INFO:     {"info", "i"},
                                         DEBUG:    {"debug", "d", "verbose", "v"} * used if no argument is provided
-                                      (default error)
+                                      (default warning)
   -o, --output-directory string      Path to a directory for writing the YAML files which were operated on by Yot (default "./output")
   -S, --output-style style           Style to be used for rendering final documents.
                                      Multiple values can be provided to achieve the desired result, valid values are:
diff --git a/docs/sections/configFile.md b/docs/sections/configFile.md
index dfa0abd..4744f75 100644
--- a/docs/sections/configFile.md
+++ b/docs/sections/configFile.md
@@ -28,7 +28,7 @@ The following table will display the available settings, their default values, a
 | Setting Key | Default Value | Options | Description | Version Added |
 | --- | --- | --- | --- | --- |
 | indentLevel | 2 | 2-9 | How much to indent the new YAML.  Corresponds to the `-I` or `--indent-level` CLI parameter. | v0.5.0 |
-| logLevel | "error" | critical, error, warning, notice, info, debug | What log level to run with.  Corresponds to the `-v` or `--log-level` CLI parameter. | v0.5.0 |
+| logLevel | "warning" | critical, error, warning, notice, info, debug | What log level to run with.  Corresponds to the `-v` or `--log-level` CLI parameter. | v0.5.0 |
 | outputDirectory | ./output | any path you like | Path where you would like the new YAML files to be output. Corresponds to the `-o` or `--output-directory` CLI parameter. | v0.5.0 |
 | outputStyle | [normal] | normal, tagged, doubleQuoted, singleQuoted, literal, folded, flow | Style of the new YAML file output. Corresponds to the `-S` or `--output-style` CLI parameter. | v0.5.0 |
 | removeComments | false | false, true | Removes existing comments prior to performing overlays.  Corresponds to the `--remove-comments` CLI parameter. | v0.5.0 |
diff --git a/docs/sections/envVars.md b/docs/sections/envVars.md
index cfd3f26..c16f8d7 100644
--- a/docs/sections/envVars.md
+++ b/docs/sections/envVars.md
@@ -14,7 +14,7 @@ The following table will display the available settings, their default values, a
 | --- | --- | --- | --- | --- |
 | YOT_CONFIG_FILE | "" | any path to a Yot configuration file you like | Yot configuration file location. Corresponds to the `--config` CLI parameter. | v0.5.0 |
 | YOT_INDENT_LEVEL | "2" | 2-9 | How much to indent the new YAML.  Corresponds to the `-I` or `--indent-level` CLI parameter. | v0.5.0 |
-| YOT_LOG_LEVEL | "error" | critical, error, warning, notice, info, debug | What log level to run with.  Corresponds to the `-v` or `--log-level` CLI parameter. | v0.5.0 |
+| YOT_LOG_LEVEL | "warning" | critical, error, warning, notice, info, debug | What log level to run with.  Corresponds to the `-v` or `--log-level` CLI parameter. | v0.5.0 |
 | YOT_OUTPUT_DIRECTORY | "./output" | any path you like | Path where you would like the new YAML files to be output. Corresponds to the `-o` or `--output-directory` CLI parameter. | v0.5.0 |
 | YOT_OUTPUT_STYLE | "[normal]" | normal, tagged, doubleQuoted, singleQuoted, literal, folded, flow | Style of the new YAML file output. Corresponds to the `-S` or `--output-style` CLI parameter. | v0.5.0 |
 | YOT_REMOVE_COMMENTS | "false" | false, true | Removes existing comments prior to performing overlays.  Corresponds to the `--remove-comments` CLI parameter. | v0.5.0 |
-- 
2.43.0


From 6a4b4a848c4fc3bc72effd8211bcea9672c24b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 37/51] fix: place the line comment of a collection with its
 own tag when a style is set

---
 internal/actions/comments.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/actions/comments.go b/internal/actions/comments.go
index b9c087f..ed9f028 100644
--- a/internal/actions/comments.go
+++ b/internal/actions/comments.go
@@ -35,7 +35,7 @@ func placeComments(n *yaml.Node, flow bool) {
 
 func placePairComments(key, value *yaml.Node, block bool) {
 	switch {
-	case block && (value.Anchor != "" || value.Style&yaml.TaggedStyle != 0):
+	case block && (value.Anchor != "" || hasTag(value)):
 		moveComment(&key.HeadComment, &key.LineComment)
 		moveComment(&key.HeadComment, &value.LineComment)
 	case block && key.LineComment == "":
@@ -59,6 +59,20 @@ func moveComment(to, from *string) {
 	*from = ""
 }
 
+// hasTag checks if the tag of a collection gets written.
+func hasTag(n *yaml.Node) bool {
+	if n.Style&yaml.TaggedStyle != 0 {
+		return true
+	}
+
+	switch n.ShortTag() {
+	case "!!map", "!!seq":
+		return false
+	}
+
+	return true
+}
+
 func isCollection(n *yaml.Node) bool {
 	return n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode
 }
-- 
2.43.0


From 8d34eb0a1df7d266ab2252e9965d485458a94a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 38/51] fix: keep the foot comment of a list entry in block
 style from ending up inside the next entry

---
 internal/actions/comments.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/actions/comments.go b/internal/actions/comments.go
index ed9f028..23dc9cb 100644
--- a/internal/actions/comments.go
+++ b/internal/actions/comments.go
@@ -7,9 +7,10 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-// PlaceComments moves the line comments which the YAML library can not write at the place they are attached to.
+// PlaceComments moves the comments which the YAML library can not write at the place they are attached to.
 // A line comment of a collection in block style would end up at some other node or get lost, and a line comment of
 // a key would separate the key from a value in flow style, or from the anchor or the tag of its value.
+// A foot comment of a list entry in block style would separate the next entry from its indicator.
 func PlaceComments(n *yaml.Node) {
 	placeComments(n, false)
 }
@@ -25,6 +26,13 @@ func placeComments(n *yaml.Node, flow bool) {
 			placePairComments(n.Content[i-1], c, block)
 		case n.Kind == yaml.SequenceNode && block:
 			moveComment(&c.HeadComment, &c.LineComment)
+
+			if i+1 < len(n.Content) {
+				next := n.Content[i+1]
+
+				moveComment(&c.FootComment, &next.HeadComment)
+				moveComment(&next.HeadComment, &c.FootComment)
+			}
 		case n.Kind == yaml.DocumentNode && block:
 			moveComment(&n.HeadComment, &c.LineComment)
 		}
-- 
2.43.0


From 009bef288e5fbea52d0ae7f5ce557c605647d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:12 +0000
Subject: [PATCH 39/51] fix: keep a line comment of several lines out of the
 text of block scalars

---
 internal/actions/comments.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/actions/comments.go b/internal/actions/comments.go
index 23dc9cb..0fbaf82 100644
--- a/internal/actions/comments.go
+++ b/internal/actions/comments.go
@@ -4,12 +4,15 @@
 package actions
 
 import (
+	"strings"
+
 	"gopkg.in/yaml.v3"
 )
 
 // PlaceComments moves the comments which the YAML library can not write at the place they are attached to.
 // A line comment of a collection in block style would end up at some other node or get lost, and a line comment of
 // a key would separate the key from a value in flow style, or from the anchor or the tag of its value.
+// A line comment of several lines would become text of a block scalar.
 // A foot comment of a list entry in block style would separate the next entry from its indicator.
 func PlaceComments(n *yaml.Node) {
 	placeComments(n, false)
@@ -37,6 +40,17 @@ func placeComments(n *yaml.Node, flow bool) {
 			moveComment(&n.HeadComment, &c.LineComment)
 		}
 
+		if !flow && isBlockScalar(c) && strings.Contains(c.LineComment, "\n") {
+			switch {
+			case n.Kind == yaml.MappingNode && i%2 == 1:
+				moveComment(&n.Content[i-1].HeadComment, &c.LineComment)
+			case n.Kind == yaml.DocumentNode:
+				moveComment(&n.HeadComment, &c.LineComment)
+			default:
+				moveComment(&c.HeadComment, &c.LineComment)
+			}
+		}
+
 		placeComments(c, flow)
 	}
 }
@@ -84,3 +98,10 @@ func hasTag(n *yaml.Node) bool {
 func isCollection(n *yaml.Node) bool {
 	return n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode
 }
+
+func isBlockScalar(n *yaml.Node) bool {
+	const quoted = yaml.DoubleQuotedStyle | yaml.SingleQuotedStyle
+
+	return n.Kind == yaml.ScalarNode && n.Style&quoted == 0 &&
+		(n.Style&(yaml.LiteralStyle|yaml.FoldedStyle) != 0 || strings.Contains(n.Value, "\n"))
+}
-- 
2.43.0


From e14434f52e144d049b383c6e54f8aa55f9b69db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 40/51] fix: merge with keys which are aliases by the value
 they stand for

---
 internal/actions/merge.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 2fe6c72..9320380 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -56,6 +56,22 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 	return nil
 }
 
+// dealias returns the value an alias stands for.
+func dealias(n *yaml.Node) *yaml.Node {
+	if n.Kind == yaml.AliasNode {
+		return n.Alias
+	}
+
+	return n
+}
+
+// hasKey tells whether a key, which may be an alias, is a scalar of the given text.
+func hasKey(key *yaml.Node, text string) bool {
+	key = dealias(key)
+
+	return key.Kind == yaml.ScalarNode && key.Value == text
+}
+
 // resolveAlias makes an alias the value it stands for, which must neither be lost nor be changed in its other places.
 func resolveAlias(o *yaml.Node) {
 	if o.Kind == yaml.AliasNode {
@@ -78,6 +94,7 @@ func mergeDocument(o, n *yaml.Node) error {
 func mergeMap(o, n *yaml.Node) error {
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
+		newKey := dealias(n.Content[ni])
 
 		if o.Kind != yaml.MappingNode {
 			o.Kind = yaml.MappingNode
@@ -89,8 +106,8 @@ func mergeMap(o, n *yaml.Node) error {
 		for oi := 0; oi < len(o.Content)-1; oi += 2 {
 			var foundMarker bool
 
-			if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker {
-				if o.Content[oi].Value != n.Content[ni].Value {
+			if foundMarker = checkForMarkers(newKey.Value); !foundMarker {
+				if !hasKey(o.Content[oi], newKey.Value) {
 					continue
 				}
 			}
@@ -99,12 +116,12 @@ func mergeMap(o, n *yaml.Node) error {
 
 			resolveAlias(o.Content[oi+1])
 
-			keyName := o.Content[oi].Value
+			keyName := dealias(o.Content[oi]).Value
 			value := o.Content[oi+1].Value
 
 			if foundMarker {
-				mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
-				retagKey(o.Content[oi], n.Content[ni])
+				mergeScalar(o.Content[oi], newKey, value, keyName)
+				retagKey(o.Content[oi], newKey)
 			} else {
 				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
 			}
-- 
2.43.0


From 40d34283ec7e7f70f6d11286f4d95b199d44891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 41/51] fix: unescape child names of inject paths only once

---
 internal/builder/path.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 62ce555..928a263 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -100,8 +100,6 @@ func newPath(l *lexer) (*Path, error) {
 			return nil, fmt.Errorf("%w, wildcard notation not allowed for build", ErrInvalidPathSyntax)
 		}
 
-		childName = unescape(childName)
-
 		return childThen(l, childName)
 
 	case lexemeUndottedChild:
-- 
2.43.0


From 441c677b9b70dd62ed93a78046ae457541856e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 42/51] fix: merge keys which are collections as keys of their
 own, not as empty ones

---
 internal/actions/merge.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 9320380..2a9c284 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -65,11 +65,11 @@ func dealias(n *yaml.Node) *yaml.Node {
 	return n
 }
 
-// hasKey tells whether a key, which may be an alias, is a scalar of the given text.
-func hasKey(key *yaml.Node, text string) bool {
-	key = dealias(key)
+// sameKey tells whether two keys, which may be aliases, are scalars of the same text.
+func sameKey(a, b *yaml.Node) bool {
+	a, b = dealias(a), dealias(b)
 
-	return key.Kind == yaml.ScalarNode && key.Value == text
+	return a.Kind == yaml.ScalarNode && b.Kind == yaml.ScalarNode && a.Value == b.Value
 }
 
 // resolveAlias makes an alias the value it stands for, which must neither be lost nor be changed in its other places.
@@ -107,7 +107,7 @@ func mergeMap(o, n *yaml.Node) error {
 			var foundMarker bool
 
 			if foundMarker = checkForMarkers(newKey.Value); !foundMarker {
-				if !hasKey(o.Content[oi], newKey.Value) {
+				if !sameKey(o.Content[oi], newKey) {
 					continue
 				}
 			}
-- 
2.43.0


From decec1b946e985b6e074fdd929cedc4a04fc9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 43/51] fix: leave keys which are collections alone when a key
 with markers is merged

---
 internal/actions/merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 2a9c284..471e15a 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -110,6 +110,8 @@ func mergeMap(o, n *yaml.Node) error {
 				if !sameKey(o.Content[oi], newKey) {
 					continue
 				}
+			} else if dealias(o.Content[oi]).Kind != yaml.ScalarNode {
+				continue
 			}
 
 			resultFound = true
-- 
2.43.0


From 682f497997f901baeaf143cc827a25e2d27d464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 44/51] fix: process the files of a directory which is given by
 a symbolic link

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 5236431..3c02c6f 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -89,7 +89,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// the separator has a directory which is given by a symbolic link walked as well
+	err := filepath.Walk(p+string(os.PathSeparator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
-- 
2.43.0


From b47d639c3c1014a712f34f8b25325f56ad5f2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 45/51] fix: merge an empty mapping over a value of another
 kind

---
 internal/actions/merge.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 471e15a..906eaf9 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -92,17 +92,17 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	if o.Kind != yaml.MappingNode {
+		o.Kind = yaml.MappingNode
+		o.Tag = "!!map"
+		o.Value = ""
+		o.Content = []*yaml.Node{}
+	}
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 		newKey := dealias(n.Content[ni])
 
-		if o.Kind != yaml.MappingNode {
-			o.Kind = yaml.MappingNode
-			o.Tag = "!!map"
-			o.Value = ""
-			o.Content = []*yaml.Node{}
-		}
-
 		for oi := 0; oi < len(o.Content)-1; oi += 2 {
 			var foundMarker bool
 
-- 
2.43.0


From 85883b004e0f15da46c25e573ad3216c660a0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:59 +0000
Subject: [PATCH 46/51] fix: print the settings in a fixed order

---
 internal/commands/env.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/commands/env.go b/internal/commands/env.go
index 5052de6..e41626d 100644
--- a/internal/commands/env.go
+++ b/internal/commands/env.go
@@ -6,6 +6,7 @@ package commands
 import (
 	"fmt"
 	"os"
+	"sort"
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
@@ -40,8 +41,15 @@ func (r *Root) EnvCommand() *cobra.Command {
 func (r *Root) env(cmd *cobra.Command, args []string) {
 	settings := envMap()
 	if len(args) == 0 {
-		for k, v := range settings {
-			os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(v)))
+		names := make([]string, 0, len(settings))
+		for k := range settings {
+			names = append(names, k)
+		}
+
+		sort.Strings(names)
+
+		for _, k := range names {
+			os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(settings[k])))
 		}
 	} else {
 		os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", args[0], viper.Get(settings[args[0]])))
-- 
2.43.0


From 1341c17985f2aa757a53533d7e4ddc16730c2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 47/51] fix: report an error if the list of the files written
 can not be output

---
 internal/instructions/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 5be502c..a84db94 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -108,7 +108,11 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 		return nil, fmt.Errorf("failed to create/open file %s: %w", fileName, err)
 	}
 
-	os.Stdout.WriteString(fileName + "\n")
+	if _, err := os.Stdout.WriteString(fileName + "\n"); err != nil {
+		CloseFile(file)
+
+		return nil, fmt.Errorf("failed to %w", err)
+	}
 
 	return file, nil
 }
-- 
2.43.0


From 73132204b2b61a0928c727a095fb1c086f3cae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:42 +0000
Subject: [PATCH 48/51] fix: close values files after they were read

---
 internal/instructions/values.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index f5891e2..f5f1995 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"fmt"
+	"os"
 
 	"gopkg.in/yaml.v3"
 )
@@ -26,6 +27,10 @@ func getValues(fileNames []string) (interface{}, error) {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
+		if file, ok := reader.(*os.File); ok {
+			CloseFile(file)
+		}
+
 		values = mergeValues(values, fileValues)
 	}
 
-- 
2.43.0


From d929a74af9cb1818c46bb643b58c8a4d54c963a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:30 +0000
Subject: [PATCH 49/51] fix: name the values file which can not be decoded

---
 internal/instructions/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index f5f1995..4361675 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -24,7 +24,7 @@ func getValues(fileNames []string) (interface{}, error) {
 		yd := yaml.NewDecoder(reader)
 
 		if err := yd.Decode(&fileValues); err != nil {
-			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
+			return nil, fmt.Errorf("failed to decode yaml values from %s: %w", v, err)
 		}
 
 		if file, ok := reader.(*os.File); ok {
-- 
2.43.0


From 6581c5a5431ef475936ad24b3a1eda4a9aac7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:01 +0000
Subject: [PATCH 50/51] fix: name the file on which the parser panics

---
 internal/instructions/instructions.go |  2 +-
 internal/instructions/utils.go        | 10 ++++++++++
 internal/instructions/values.go       |  2 +-
 internal/instructions/yamlfile.go     |  2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index dc1f5fc..8b00ee4 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -105,7 +105,7 @@ func (cfg *Config) ReadInstructionFile() (result *Instructions, err error) {
 	}
 
 	dc := yaml.NewDecoder(reader)
-	if err := dc.Decode(&instructions); err != nil {
+	if err := decode(dc, &instructions); err != nil {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 3c02c6f..993953b 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,9 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
+	"gopkg.in/yaml.v3"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -32,6 +35,13 @@ func CloseFile(file *os.File) {
 	}
 }
 
+// decode reads the next document, malformed input on which the parser panics results in an error.
+func decode(dc *yaml.Decoder, v interface{}) (err error) {
+	defer actions.RecoverParser(&err)
+
+	return dc.Decode(v) //nolint:wrapcheck // the caller knows the name of the file
+}
+
 // GetCommonPrefix determines the longest common prefix in a set of paths.
 func GetCommonPrefix(sep byte, paths ...string) string {
 	switch len(paths) {
diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 4361675..9a3d5f4 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -23,7 +23,7 @@ func getValues(fileNames []string) (interface{}, error) {
 
 		yd := yaml.NewDecoder(reader)
 
-		if err := yd.Decode(&fileValues); err != nil {
+		if err := decode(yd, &fileValues); err != nil {
 			return nil, fmt.Errorf("failed to decode yaml values from %s: %w", v, err)
 		}
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index bc9cbf6..b1a7ce7 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -124,7 +124,7 @@ func (yf *YamlFile) readYamlFile() error {
 	for {
 		var y yaml.Node
 
-		if err := dc.Decode(&y); errors.Is(err, io.EOF) {
+		if err := decode(dc, &y); errors.Is(err, io.EOF) {
 			if reader, ok := reader.(*os.File); ok {
 				CloseFile(reader)
 			}
-- 
2.43.0


From db2e4ba7cf2878a6daf2dee4dae33502ef277925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:49 +0000
Subject: [PATCH 51/51] fix: report settings which can not be output

---
 internal/commands/env.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/commands/env.go b/internal/commands/env.go
index e41626d..20f5a86 100644
--- a/internal/commands/env.go
+++ b/internal/commands/env.go
@@ -49,10 +49,14 @@ func (r *Root) env(cmd *cobra.Command, args []string) {
 		sort.Strings(names)
 
 		for _, k := range names {
-			os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(settings[k])))
+			if _, err := os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(settings[k]))); err != nil {
+				r.Log.Fatal(err)
+			}
 		}
 	} else {
-		os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", args[0], viper.Get(settings[args[0]])))
+		if _, err := os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", args[0], viper.Get(settings[args[0]]))); err != nil {
+			r.Log.Fatal(err)
+		}
 	}
 }
 
-- 
2.43.0

