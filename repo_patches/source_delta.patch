From 666107da36cd545b2598ea101fa61bbb373618b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 01/50] fix: do not share the common overlays' backing array
 between files

---
 internal/instructions/instructions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..4e87632 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,9 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		o := make([]*overlays.Overlay, 0, len(i.CommonOverlays)+len(yf.Overlays))
+		o = append(o, i.CommonOverlays...)
+		yf.Overlays = append(o, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From b36d9780a3ae9bd15fffef087914d7e80df0bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 02/50] fix: start a file's output with a separator when its
 first document is omitted

---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 0034c3283a720b5ab88805300cb61611d6b69c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/50] fix: do not panic when merging into an emptied document

---
 internal/actions/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..12c376b 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,7 +55,7 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
+	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
 
 		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
-- 
2.43.0


From d39471644f32ef8abce5c4d44db0a66a23289670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/50] fix: do not panic on inject without any path

---
 internal/builder/path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..e0f479e 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -46,6 +46,10 @@ func NewPath(path string) (*Path, error) {
 }
 
 func NewPaths(paths []string) (*Paths, error) {
+	if len(paths) == 0 {
+		return nil, fmt.Errorf("%w, no path given", ErrInvalidPathSyntax)
+	}
+
 	results := make(Paths, len(paths))
 
 	for i, p := range paths {
-- 
2.43.0


From 3824f79c0a36cee1c7c60ac8fbb161e8e73b4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 05/50] fix: make the Sprig functions available to templated
 instructions

---
 internal/instructions/template.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..12e927f 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,19 +7,20 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	tpl := template.New(path.Base(fileName)).Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
+
+	tpl, err := tpl.ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
-
 	var b bytes.Buffer
 
 	if err := tpl.Execute(&b, values); err != nil {
-- 
2.43.0


From edbd9da953cf6a3c9f6422db2da7a2786f97122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 06/50] fix: bind the settings to their YOT_ environment
 variables

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From b006758477f2c621458077b84b52c150034231d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/50] fix: clean absolute input paths before computing output
 paths

---
 internal/instructions/yamlfile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..d29f4d9 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -122,6 +122,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From 8b5ffdb2aba246ff3ef063371531efd1d6a2f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 08/50] fix: remove document level comments with
 --remove-comments too

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index d29f4d9..144fae6 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -182,15 +182,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From ebc08ef35bd48a5165df6cff97a396aeec8d592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 09/50] fix: do not write to overlays shared between
 concurrently processed files

---
 internal/overlays/onmissing.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..7db1001 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,11 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +41,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From 6acc8f268071e4d906746ecfb9ab1fd540117426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/50] fix: do not inject a value for delete and combine
 overlays

---
 internal/overlays/onmissing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 7db1001..0ce94b7 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -36,6 +36,11 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 		}
 	}
 
+	// there is nothing to delete or to combine with
+	if o.Action == actions.Delete || o.Action == actions.Combine {
+		return nil
+	}
+
 	// check if the query has a match
 	// if no match then we require an inject path
 	// we need to then check if each inject path is valid (does it exist)
-- 
2.43.0


From 3d4d0bf42fc7f92a2d6a48451583c9958053a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/50] fix: report a negative indent level instead of
 panicking

---
 internal/instructions/config.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 432134b..e8f8113 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrInvalidIndent occurs when the indent level cannot be used.
+var ErrInvalidIndent = errors.New("invalid indent level")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -115,7 +119,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	ye.SetIndent(viper.GetInt("indentLevel"))
+	indent := viper.GetInt("indentLevel")
+	if indent < 0 {
+		return nil, fmt.Errorf("%w, %d", ErrInvalidIndent, indent)
+	}
+
+	ye.SetIndent(indent)
 
 	for _, node := range nodes {
 		if len(node.Content) == 0 {
-- 
2.43.0


From ab4c5dde5b80cde717e528350c2777a052d09f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 12/50] fix: accept the style name singleQuote on the command
 line

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..6658e8d 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -49,7 +49,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
-- 
2.43.0


From ccecf030ac91889cb710795ea1cac83c5f4515ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/50] fix: report integer overflow in combine instead of
 writing a wrapped sum

---
 internal/actions/combine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..ab15c6d 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -14,6 +14,9 @@ import (
 // ErrCombineOnlyForScalars occurs when a non-scalar is attempted to be combined with a scalar value.
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
+// ErrCombineOverflow occurs when the sum of two integers cannot be represented.
+var ErrCombineOverflow = errors.New("integer overflow during combine")
+
 func CombineNode(originalValue, newValue *yaml.Node) error {
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
@@ -33,7 +36,12 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		sum := o + n
+		if (sum > o) != (n > 0) {
+			return fmt.Errorf("%w, %d + %d", ErrCombineOverflow, o, n)
+		}
+
+		originalValue.Value = strconv.Itoa(sum)
 
 		return nil
 
-- 
2.43.0


From b6ba1b4c92829197a8261b150b8a62705d8c9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 14/50] fix: keep existing comments of the kinds an overlay
 value does not have

---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 12c376b..993b9d7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From 37a3eddf81df9e5fa414c6837ab3f910b65cd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 15/50] fix: keep the listing order of files when expanding
 directories

---
 internal/instructions/yamlfile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 144fae6..c768f08 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -135,6 +135,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 				return err
 			}
 
+			files := make([]*YamlFile, 0, len(y)+len(paths))
+			files = append(files, y[:i]...)
+
 			for _, p := range paths {
 				sp := &YamlFile{
 					Name:       y[i].Name,
@@ -144,11 +147,11 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				files = append(files, sp)
 			}
 
-			y = append(y[:i], y[i+1:]...)
-			i--
+			y = append(files, y[i+1:]...)
+			i += len(paths) - 1
 		}
 	}
 
-- 
2.43.0


From 1644e4b1d94e3f61fdfbbc1120413b911af14261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 16/50] fix: never emit aliases whose anchor is not in the
 output

---
 internal/actions/alias.go       | 88 +++++++++++++++++++++++++++++++++
 internal/instructions/config.go |  4 ++
 internal/overlays/overlay.go    |  7 +++
 3 files changed, 99 insertions(+)
 create mode 100644 internal/actions/alias.go

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
new file mode 100644
index 0000000..8d00dea
--- /dev/null
+++ b/internal/actions/alias.go
@@ -0,0 +1,88 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"errors"
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
+
+// ErrRecursiveAlias occurs when an alias refers to a node it is part of.
+var ErrRecursiveAlias = errors.New("alias refers to itself")
+
+// InlineAliases replaces every alias whose anchor does not come before it in the tree by a copy of what it refers to.
+func InlineAliases(n *yaml.Node) error {
+	return inlineAliases(n, map[string]*yaml.Node{})
+}
+
+func inlineAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
+	if n.Kind == yaml.AliasNode {
+		if target, ok := anchors[n.Value]; ok && target == n.Alias {
+			return nil
+		}
+
+		resolved, err := ResolveAliases(n)
+		if err != nil {
+			return err
+		}
+
+		*n = *resolved
+
+		return nil
+	}
+
+	if n.Anchor != "" {
+		anchors[n.Anchor] = n
+	}
+
+	for _, c := range n.Content {
+		if err := inlineAliases(c, anchors); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// ResolveAliases returns a copy of the tree without aliases and anchors.
+func ResolveAliases(n *yaml.Node) (*yaml.Node, error) {
+	return resolveAliases(n, map[*yaml.Node]bool{})
+}
+
+func resolveAliases(n *yaml.Node, active map[*yaml.Node]bool) (*yaml.Node, error) {
+	if n.Kind == yaml.AliasNode {
+		if active[n.Alias] {
+			return nil, fmt.Errorf("%w, %s", ErrRecursiveAlias, n.Value)
+		}
+
+		active[n.Alias] = true
+		defer delete(active, n.Alias)
+
+		c, err := resolveAliases(n.Alias, active)
+		if err != nil {
+			return nil, err
+		}
+
+		c.HeadComment, c.LineComment, c.FootComment = n.HeadComment, n.LineComment, n.FootComment
+
+		return c, nil
+	}
+
+	c := *n
+	c.Anchor = ""
+	c.Content = nil
+
+	for _, v := range n.Content {
+		r, err := resolveAliases(v, active)
+		if err != nil {
+			return nil, err
+		}
+
+		c.Content = append(c.Content, r)
+	}
+
+	return &c, nil
+}
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index e8f8113..e1a55a8 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -135,6 +135,10 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 			output.WriteString("---\n")
 		}
 
+		if err := actions.InlineAliases(node); err != nil {
+			return nil, fmt.Errorf("%w", err)
+		}
+
 		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..8420b90 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -87,6 +87,13 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	v, err := actions.ResolveAliases(&o.Value)
+	if err != nil {
+		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
+	}
+
+	o.Value = *v
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
-- 
2.43.0


From bd17f3430e78adf9084918030945a26dd32c9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 17/50] fix: report an invalid log level instead of panicking

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 7f2eca6..f31f355 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -141,7 +141,7 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 
 	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
 	if err != nil {
-		panic(err)
+		r.Log.Fatal(err)
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From 313a8a026b9aab6e730de257f7ffdaefc518621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/50] fix: do not turn a style given twice into another style

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 6658e8d..d69a5c8 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From 86d3f06fd762eed09334c1d873fb7f1e9f61fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 19/50] fix: reject an empty query flag instead of panicking

---
 internal/overlays/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..955a1b4 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 
@@ -11,6 +12,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrEmptyQuery occurs when there is nothing where a query is expected.
+var ErrEmptyQuery = errors.New("empty query")
+
 type Query struct {
 	yamlPath    *yamlpath.Path
 	queryString string
@@ -105,6 +109,10 @@ func (mq *Queries) Set(val string) error {
 		return fmt.Errorf("%w", err)
 	}
 
+	if q.yamlPath == nil {
+		return ErrEmptyQuery
+	}
+
 	*mq = append(*mq, q)
 
 	return nil
-- 
2.43.0


From 7ecf34a299ea0fd682c67831b48a1c5c58146b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 20/50] fix: do not retype a scalar when merging without a
 value

---
 internal/actions/merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 993b9d7..88bd1ef 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -37,6 +37,8 @@ func MergeNode(nodes ...*yaml.Node) error {
 
 func merge(o, n *yaml.Node, keyName ...string) error {
 	switch n.Kind {
+	case 0: // no value was given
+		return nil
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
 	case yaml.MappingNode:
-- 
2.43.0


From c03e6fe0ab0911745432eadf1810ff070d51b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 21/50] fix: compare only the data in documentQuery conditions

---
 internal/overlays/documentquery.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 9609f86..bd6f064 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,7 +41,24 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style")
+	type data struct {
+		Kind    yaml.Kind
+		Tag     string
+		Value   string
+		Content []*yaml.Node
+	}
+
+	// only the data is compared, not its presentation in the file
+	compareOptions := cmp.Options{
+		cmpopts.EquateEmpty(),
+		cmp.Transformer("data", func(n *yaml.Node) data {
+			if n.Kind == yaml.AliasNode {
+				n = n.Alias
+			}
+
+			return data{Kind: n.Kind, Tag: n.ShortTag(), Value: n.Value, Content: n.Content}
+		}),
+	}
 
 	if dq.Conditions == nil {
 		return true
@@ -55,7 +72,7 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
+				if ok := cmp.Equal(result, &c.Value, compareOptions); !ok {
 					return false
 				}
 			}
-- 
2.43.0


From 9018ae88dd7ec400d24bd9faade09ddd3aed0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 22/50] fix: reject empty list entries in instructions instead
 of panicking

---
 internal/instructions/instructions.go |  4 ++++
 internal/instructions/yamlfile.go     | 30 +++++++++++++++++++++++++++
 internal/overlays/documentquery.go    | 22 ++++++++++++++++++++
 internal/overlays/overlay.go          |  4 ++++
 4 files changed, 60 insertions(+)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 4e87632..656a9fb 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -106,6 +106,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
+	if hasEmptyOverlay(instructions.CommonOverlays) {
+		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, ErrEmptyEntry)
+	}
+
 	return &instructions, nil
 }
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index c768f08..4de3ab2 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -17,6 +17,9 @@ import (
 
 var ErrFoundDirectoryWithPathOutput = errors.New("found directory as input path with file as output path")
 
+// ErrEmptyEntry occurs when a list in the instructions file has an entry without content.
+var ErrEmptyEntry = errors.New("found an empty list entry")
+
 // YamlFile is used to define which files should be manipulated and overlays specific to that file.
 type YamlFile struct {
 	// Optional Name to define for organization purposes.
@@ -63,6 +66,12 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, yf := range yft {
+		if yf == nil || hasEmptyEntry(yf) {
+			return fmt.Errorf("%w at line %d column %d", ErrEmptyEntry, value.Line, value.Column)
+		}
+	}
+
 	y := YamlFiles(yft)
 	if err := y.expandDirectories(); err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
@@ -81,6 +90,27 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+// hasEmptyEntry determines if any list of the YamlFile has an entry without content.
+func hasEmptyEntry(yf *YamlFile) bool {
+	for _, d := range yf.Documents {
+		if d == nil || hasEmptyOverlay(d.Overlays) {
+			return true
+		}
+	}
+
+	return hasEmptyOverlay(yf.Overlays)
+}
+
+func hasEmptyOverlay(os []*overlays.Overlay) bool {
+	for _, o := range os {
+		if o == nil {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index bd6f064..18c0e3a 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -4,11 +4,16 @@
 package overlays
 
 import (
+	"errors"
+
 	"github.com/google/go-cmp/cmp"
 	"github.com/google/go-cmp/cmp/cmpopts"
 	"gopkg.in/yaml.v3"
 )
 
+// ErrEmptyCondition occurs when a documentQuery has an entry without content.
+var ErrEmptyCondition = errors.New("found an empty documentQuery entry")
+
 type DocumentQuery struct {
 	Conditions []*Condition `yaml:"conditions,omitempty"`
 }
@@ -81,3 +86,20 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 	return true
 }
+
+// hasEmptyEntry determines if a group or a condition has no content.
+func (dq DocumentQueries) hasEmptyEntry() bool {
+	for _, q := range dq {
+		if q == nil {
+			return true
+		}
+
+		for _, c := range q.Conditions {
+			if c == nil {
+				return true
+			}
+		}
+	}
+
+	return false
+}
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index 8420b90..ab27a4e 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -87,6 +87,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if o.DocumentQuery.hasEmptyEntry() {
+		return fmt.Errorf("%w at line %d column %d", ErrEmptyCondition, value.Line, value.Column)
+	}
+
 	v, err := actions.ResolveAliases(&o.Value)
 	if err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
-- 
2.43.0


From 49568e538609ab80dbe637acc2eb9e4093e7492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 23/50] verif: trace and order points for verification builds
 (build tag verif)

---
 internal/instructions/config.go  |   4 +
 internal/instructions/execute.go |   5 +
 internal/overlays/workstream.go  |   5 +
 internal/probe/probe_off.go      |  19 ++++
 internal/probe/probe_on.go       | 168 +++++++++++++++++++++++++++++++
 5 files changed, 201 insertions(+)
 create mode 100644 internal/probe/probe_off.go
 create mode 100644 internal/probe/probe_on.go

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index e1a55a8..a018fe5 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -15,6 +15,7 @@ import (
 	"github.com/spf13/viper"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/probe"
 	"gopkg.in/yaml.v3"
 )
 
@@ -43,6 +44,9 @@ func (cfg *Config) doPostProcessing(yf *YamlFile) error {
 
 	var err error
 
+	probe.Begin("write", yf.Path)
+	defer probe.End("write", yf.Path)
+
 	output, err := cfg.encodeNodes(yf.Nodes)
 	if err != nil {
 		return fmt.Errorf("unable to marshal final document %s, error: %w", yf.Path, err)
diff --git a/internal/instructions/execute.go b/internal/instructions/execute.go
index 158c583..f0ef717 100644
--- a/internal/instructions/execute.go
+++ b/internal/instructions/execute.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/op/go-logging"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/probe"
 	"golang.org/x/sync/errgroup"
 )
 
@@ -40,8 +41,12 @@ func Execute(cfg *Config) error {
 					return fmt.Errorf("%w", err)
 				}
 
+				probe.Begin("emit", yf.Path)
+
 				select {
 				case pChan <- yf:
+					probe.End("emit", yf.Path)
+
 					return nil
 				case <-ctx.Done():
 					if err := ctx.Err(); err != nil {
diff --git a/internal/overlays/workstream.go b/internal/overlays/workstream.go
index 2624fdd..2fe4bdd 100644
--- a/internal/overlays/workstream.go
+++ b/internal/overlays/workstream.go
@@ -6,6 +6,7 @@ package overlays
 import (
 	"fmt"
 
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/probe"
 	"gopkg.in/yaml.v3"
 )
 
@@ -45,9 +46,13 @@ func (s *WorkStream) StartHandler() error {
 	for o := range s.stream {
 		log.Noticef("Processing overlay [%q] in file %s on document %d", o.Overlay.Name, o.Path, o.NodeIndex)
 
+		probe.Begin("apply", o.Path)
+
 		if err := o.Overlay.Apply(o.Node); err != nil {
 			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
 		}
+
+		probe.Applied(o.Path, o.NodeIndex, o.Overlay.Name, o.Node)
 	}
 
 	return nil
diff --git a/internal/probe/probe_off.go b/internal/probe/probe_off.go
new file mode 100644
index 0000000..a596958
--- /dev/null
+++ b/internal/probe/probe_off.go
@@ -0,0 +1,19 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+//go:build !verif
+// +build !verif
+
+// Package probe marks the points of a run that a verification build observes. Without the build tag it does nothing.
+package probe
+
+import "gopkg.in/yaml.v3"
+
+// Begin marks that a step on a file is about to start.
+func Begin(step, path string) {}
+
+// End marks that a step on a file has ended.
+func End(step, path string) {}
+
+// Applied marks that an overlay has been applied to a document of a file.
+func Applied(path string, index int, overlay string, n *yaml.Node) {}
diff --git a/internal/probe/probe_on.go b/internal/probe/probe_on.go
new file mode 100644
index 0000000..cb8f60b
--- /dev/null
+++ b/internal/probe/probe_on.go
@@ -0,0 +1,168 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+//go:build verif
+// +build verif
+
+// Package probe records the steps of a run, and can make them happen in a given order.
+//
+// YOT_PROBE_TRACE names the file the steps are written to, one JSON object per line.
+// YOT_PROBE_ORDER names a file with the order of the steps, one "step path" per line: a step that is listed waits
+// until all steps listed before it have ended, but not longer than the time limit.
+package probe
+
+import (
+	"encoding/json"
+	"io/ioutil"
+	"os"
+	"strings"
+	"sync"
+	"time"
+
+	"gopkg.in/yaml.v3"
+)
+
+const limit = 3 * time.Second
+
+type event struct {
+	Seq     int    `json:"seq"`
+	Step    string `json:"step"`
+	Path    string `json:"path"`
+	Index   int    `json:"index"`
+	Overlay string `json:"overlay"`
+	Node    *node  `json:"node"`
+}
+
+type node struct {
+	Kind    int     `json:"kind"`
+	Tag     string  `json:"tag"`
+	Value   string  `json:"value"`
+	Head    string  `json:"head"`
+	Line    string  `json:"line"`
+	Foot    string  `json:"foot"`
+	Content []*node `json:"content"`
+}
+
+var (
+	mu    sync.Mutex
+	cond  = sync.NewCond(&mu)
+	seq   int
+	out   *os.File
+	order []string
+	free  bool
+)
+
+func init() {
+	if name := os.Getenv("YOT_PROBE_TRACE"); name != "" {
+		var err error
+		if out, err = os.Create(name); err != nil {
+			panic(err)
+		}
+	}
+
+	if name := os.Getenv("YOT_PROBE_ORDER"); name != "" {
+		b, err := ioutil.ReadFile(name)
+		if err != nil {
+			panic(err)
+		}
+
+		order = strings.Split(strings.TrimSpace(string(b)), "\n")
+	}
+}
+
+func listed(step string) bool {
+	for _, s := range order {
+		if s == step {
+			return true
+		}
+	}
+
+	return false
+}
+
+// Begin waits until it is the step's turn.
+func Begin(step, path string) {
+	mu.Lock()
+	defer mu.Unlock()
+
+	key := step + " " + path
+
+	if free || !listed(key) {
+		return
+	}
+
+	t := time.AfterFunc(limit, func() {
+		mu.Lock()
+		defer mu.Unlock()
+
+		if len(order) != 0 && order[0] != key && !free {
+			free = true
+			record(&event{Step: "gave-up", Path: path})
+		}
+
+		cond.Broadcast()
+	})
+	defer t.Stop()
+
+	for !free && listed(key) && order[0] != key {
+		cond.Wait()
+	}
+}
+
+// End records the end of a step.
+func End(step, path string) {
+	mu.Lock()
+	defer mu.Unlock()
+
+	end(&event{Step: step, Path: path})
+}
+
+// Applied records the application of an overlay and its result.
+func Applied(path string, index int, overlay string, n *yaml.Node) {
+	mu.Lock()
+	defer mu.Unlock()
+
+	end(&event{Step: "apply", Path: path, Index: index, Overlay: overlay, Node: project(n)})
+}
+
+func end(e *event) {
+	record(e)
+
+	if len(order) != 0 && order[0] == e.Step+" "+e.Path {
+		order = order[1:]
+
+		cond.Broadcast()
+	}
+}
+
+func record(e *event) {
+	if out == nil {
+		return
+	}
+
+	seq++
+	e.Seq = seq
+
+	b, err := json.Marshal(e)
+	if err != nil {
+		panic(err)
+	}
+
+	if _, err := out.Write(append(b, '\n')); err != nil {
+		panic(err)
+	}
+}
+
+func project(n *yaml.Node) *node {
+	p := &node{
+		Kind: int(n.Kind), Tag: n.Tag, Value: n.Value,
+		Head: n.HeadComment, Line: n.LineComment, Foot: n.FootComment,
+		Content: []*node{},
+	}
+
+	for _, c := range n.Content {
+		p.Content = append(p.Content, project(c))
+	}
+
+	return p
+}
-- 
2.43.0


From a5333878667d12b8ac49cd2c1e70d888835bec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 24/50] fix: merge an empty map into a value of another kind

---
 internal/actions/merge.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 88bd1ef..9719b46 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -69,16 +69,16 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	if o.Kind != yaml.MappingNode {
+		o.Kind = yaml.MappingNode
+		o.Tag = "!!map"
+		o.Value = ""
+		o.Content = []*yaml.Node{}
+	}
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
-		if o.Kind != yaml.MappingNode {
-			o.Kind = yaml.MappingNode
-			o.Tag = "!!map"
-			o.Value = ""
-			o.Content = []*yaml.Node{}
-		}
-
 		for oi := 0; oi < len(o.Content)-1; oi += 2 {
 			var foundMarker bool
 
-- 
2.43.0


From 1b5db4306d2613cd3042ca84bf28030191855113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 25/50] fix: expand the comments of a marker key only once

---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 9719b46..d3ac6be 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -93,7 +93,9 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From ce585490e17ed071fb4b08fb7b1a457f71d99e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 26/50] fix: take only whole directories as the common prefix
 of the inputs

---
 internal/instructions/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..cd45915 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,7 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(os.PathSeparator)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
@@ -61,13 +62,11 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 
 	for i := len(c) - 1; i >= 0; i-- {
 		if c[i] == sep {
-			c = c[:i]
-
-			break
+			return c[:i] + string(os.PathSeparator)
 		}
 	}
 
-	return c + string(os.PathSeparator)
+	return ""
 }
 
 // isDirectory determines if the given path is a directory.
-- 
2.43.0


From d3c46ce8d63cd6bf1cc5a5c945350155c14b7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 27/50] fix: do not read a file's documents from the
 instructions

---
 internal/instructions/yamlfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 4de3ab2..774ceef 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -29,7 +29,7 @@ type YamlFile struct {
 	// a list of more specific entries and overlays for a specific document within the yamlFile.
 	Documents []*Document `yaml:"documents,omitempty"`
 
-	Nodes []*yaml.Node
+	Nodes []*yaml.Node `yaml:"-"`
 
 	Path string `yaml:"path,omitempty"`
 
-- 
2.43.0


From e7868a968b020c27cbe5e9cae3bd468321e515b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 28/50] fix: resolve aliases in the overlay value given on the
 command line

---
 internal/instructions/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index a018fe5..c0951b1 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -195,6 +195,13 @@ func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]
 		}
 
+		v, err := actions.ResolveAliases(&cfg.Overlay.Value)
+		if err != nil {
+			return fmt.Errorf("unable to read overlay value from flag, %w", err)
+		}
+
+		cfg.Overlay.Value = *v
+
 		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
 	}
 
-- 
2.43.0


From fbd64dc4706c8784ba850e02a56a62d85ca9763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 29/50] fix: reject unknown styles and indent levels from
 environment and config file

---
 internal/actions/style.go       | 11 +++++++++--
 internal/instructions/config.go | 27 +++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index d69a5c8..f8e8888 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -4,11 +4,15 @@
 package actions
 
 import (
+	"errors"
+	"fmt"
 	"strings"
 
 	"gopkg.in/yaml.v3"
 )
 
+var ErrInvalidStyle = errors.New("invalid output style")
+
 type Style uint
 
 type Styles []Style
@@ -83,7 +87,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
-func GetStyleFromConfig(v ...string) Styles {
+func GetStyleFromConfig(v ...string) (Styles, error) {
 	var result Styles
 
 	for _, ss := range v {
@@ -104,9 +108,12 @@ func GetStyleFromConfig(v ...string) Styles {
 				result = append(result, FoldedStyle)
 			case "flow", "fl":
 				result = append(result, FlowStyle)
+			case "":
+			default:
+				return nil, fmt.Errorf("%w, %s", ErrInvalidStyle, s)
 			}
 		}
 	}
 
-	return result
+	return result, nil
 }
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index c0951b1..691a38e 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strconv"
 
 	"github.com/op/go-logging"
 	"github.com/spf13/viper"
@@ -107,6 +108,20 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 	return file, nil
 }
 
+func indentLevel() (int, error) {
+	level := viper.GetString("indentLevel")
+	if level == "" {
+		return 0, nil
+	}
+
+	indent, err := strconv.Atoi(level)
+	if err != nil || indent < 0 {
+		return 0, fmt.Errorf("%w, %s", ErrInvalidIndent, level)
+	}
+
+	return indent, nil
+}
+
 // encodeNodes processes each node given and encodes them into a single buffer for output.
 func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 	var fileWritten bool
@@ -123,13 +138,18 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 		}
 	}()
 
-	indent := viper.GetInt("indentLevel")
-	if indent < 0 {
-		return nil, fmt.Errorf("%w, %d", ErrInvalidIndent, indent)
+	indent, err := indentLevel()
+	if err != nil {
+		return nil, err
 	}
 
 	ye.SetIndent(indent)
 
+	style, err := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
+	if err != nil {
+		return nil, fmt.Errorf("%w", err)
+	}
+
 	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
@@ -143,7 +163,6 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 			return nil, fmt.Errorf("%w", err)
 		}
 
-		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
 		actions.SetStyle(style, node)
 
 		err := ye.Encode(node)
-- 
2.43.0


From cc62385689a8aae3cf640a85465a26a4808f33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 30/50] fix: keep the types of scalars with quoted, literal and
 folded styles

---
 internal/actions/style.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index f8e8888..8b72624 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -82,11 +82,23 @@ func setStyle(s Style, n ...*yaml.Node) {
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
-			nv.Style = yaml.Style(s)
+			nv.Style = yaml.Style(scalarStyle(s, nv))
 		}
 	}
 }
 
+// scalarStyle leaves out the styles that would turn a value of another type into a string.
+func scalarStyle(s Style, n *yaml.Node) Style {
+	switch n.ShortTag() {
+	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp", "!!merge":
+		if s&TaggedStyle == 0 {
+			s &^= DoubleQuotedStyle | SingleQuotedStyle | LiteralStyle | FoldedStyle
+		}
+	}
+
+	return s
+}
+
 func GetStyleFromConfig(v ...string) (Styles, error) {
 	var result Styles
 
-- 
2.43.0


From ce89dc45534afc934516f0bc25d342da5540e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 31/50] fix: keep empty values null in flow style

---
 internal/actions/style.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 8b72624..408394a 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -83,6 +83,10 @@ func setStyle(s Style, n ...*yaml.Node) {
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(scalarStyle(s, nv))
+
+			if s&FlowStyle != 0 && nv.Value == "" && nv.ShortTag() == "!!null" {
+				nv.Value = "null" // an empty value would be written as an empty string in flow style
+			}
 		}
 	}
 }
-- 
2.43.0


From d71ad57e21d3547cd6db2458c745f51797fc6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 32/50] fix: replace format markers in one pass

---
 internal/actions/format.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..5fa9936 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -72,9 +72,9 @@ func doFormat(s string, values ...interface{}) string {
 
 	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
 
-	matches := re.FindAllStringSubmatch(s, -1)
-
-	for _, match := range matches {
+	// in one pass, so that what is put in is not taken for a marker
+	return re.ReplaceAllStringFunc(s, func(found string) string {
+		match := re.FindStringSubmatch(found)
 		result := make(map[string]string)
 
 		for i, name := range re.SubexpNames() {
@@ -83,23 +83,19 @@ func doFormat(s string, values ...interface{}) string {
 			}
 		}
 
-		if result["marker"] != "" {
-			marker := valueMap[result["marker"]]
+		marker := valueMap[result["marker"]]
 
-			if result["command"] != "" {
-				var err error
+		if result["command"] != "" {
+			var err error
 
-				marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
-				if err != nil {
-					log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
-				}
+			marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
+			if err != nil {
+				log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
 			}
-
-			s = strings.Replace(s, match[0], marker, 1)
 		}
-	}
 
-	return s
+		return marker
+	})
 }
 
 func processSedCommand(command, value string) (string, error) {
-- 
2.43.0


From 9eb4bb4b132c78d366fe6c3c1275c7ed102758b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 33/50] fix: keep line comments of keys from breaking the
 output

---
 internal/actions/style.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 408394a..7808c0a 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -80,6 +80,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
+			moveKeyComments(s, nv)
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(scalarStyle(s, nv))
@@ -91,6 +92,31 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
+// moveKeyComments moves the line comments of keys whose value follows on the same line,
+// because the encoder would break the line between the key and the value.
+func moveKeyComments(s Style, n *yaml.Node) {
+	if n.Kind != yaml.MappingNode {
+		return
+	}
+
+	for i := 0; i+1 < len(n.Content); i += 2 {
+		k, v := n.Content[i], n.Content[i+1]
+
+		if k.LineComment == "" || v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
+			continue
+		}
+
+		switch {
+		case s&(FlowStyle|TaggedStyle) != 0:
+			k.HeadComment = strings.TrimSpace(k.HeadComment + "\n" + k.LineComment)
+			k.LineComment = ""
+		case len(v.Content) == 0:
+			v.LineComment = strings.TrimSpace(k.LineComment + " " + v.LineComment)
+			k.LineComment = ""
+		}
+	}
+}
+
 // scalarStyle leaves out the styles that would turn a value of another type into a string.
 func scalarStyle(s Style, n *yaml.Node) Style {
 	switch n.ShortTag() {
-- 
2.43.0


From c79254047a899f77532cdfe15f34110a5364d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 34/50] fix: write tags of injected values in tagged style

---
 internal/actions/style.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 7808c0a..7e2d0d5 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,6 +76,10 @@ func SetStyle(ss Styles, n ...*yaml.Node) {
 
 func setStyle(s Style, n ...*yaml.Node) {
 	for _, nv := range n {
+		if s&TaggedStyle != 0 && nv.Tag == "" && nv.Kind != 0 {
+			nv.Tag = nv.ShortTag() // nodes that were not read have no tag yet
+		}
+
 		switch nv.Kind {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
-- 
2.43.0


From d84966c69adae9e4eed9be469551239adadfe9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 35/50] fix: write comments of maps and lists where they do not
 break the output

---
 internal/actions/style.go | 71 +++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 7e2d0d5..c80a751 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -84,7 +84,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
-			moveKeyComments(s, nv)
+			placeComments(s, nv)
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(scalarStyle(s, nv))
@@ -96,28 +96,65 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
-// moveKeyComments moves the line comments of keys whose value follows on the same line,
-// because the encoder would break the line between the key and the value.
-func moveKeyComments(s Style, n *yaml.Node) {
-	if n.Kind != yaml.MappingNode {
-		return
+// placeComments moves the comments of maps, lists and their keys to where the encoder can write them:
+// in other places it breaks the line between a key and its value, or writes them with one of the next values.
+func placeComments(s Style, n *yaml.Node) {
+	switch n.Kind {
+	case yaml.DocumentNode:
+		for _, v := range n.Content {
+			placeComment(s, n, v)
+		}
+	case yaml.SequenceNode:
+		for _, v := range n.Content {
+			placeComment(s, v, v)
+		}
+	case yaml.MappingNode:
+		for i := 0; i+1 < len(n.Content); i += 2 {
+			placeComment(s, n.Content[i], n.Content[i+1])
+		}
+	case yaml.ScalarNode, yaml.AliasNode:
 	}
+}
 
-	for i := 0; i+1 < len(n.Content); i += 2 {
-		k, v := n.Content[i], n.Content[i+1]
+// placeComment handles one value; k is its key, or what else its comments can be moved to.
+func placeComment(s Style, k, v *yaml.Node) {
+	join := func(sep string, comments ...string) string {
+		var c []string
 
-		if k.LineComment == "" || v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
-			continue
+		for _, v := range comments {
+			if v != "" {
+				c = append(c, v)
+			}
 		}
 
-		switch {
-		case s&(FlowStyle|TaggedStyle) != 0:
-			k.HeadComment = strings.TrimSpace(k.HeadComment + "\n" + k.LineComment)
-			k.LineComment = ""
-		case len(v.Content) == 0:
-			v.LineComment = strings.TrimSpace(k.LineComment + " " + v.LineComment)
-			k.LineComment = ""
+		return strings.Join(c, sep)
+	}
+
+	if v.Kind != yaml.MappingNode && v.Kind != yaml.SequenceNode {
+		if k != v && k.LineComment != "" && v.LineComment != "" {
+			k.LineComment, v.LineComment = "", join(" ", k.LineComment, v.LineComment)
 		}
+
+		return
+	}
+
+	line, foot := v.LineComment, v.FootComment
+	if k != v {
+		line, foot = join(" ", k.LineComment, line), join("\n", foot, k.FootComment)
+	}
+
+	k.LineComment, v.LineComment, v.FootComment = "", "", ""
+	k.FootComment = foot
+
+	switch {
+	case len(v.Content) == 0:
+		v.LineComment = line
+	case k == v:
+		k.HeadComment, k.FootComment = join("\n", k.HeadComment, line, foot), ""
+	case s&(FlowStyle|TaggedStyle) != 0 || k.Kind == yaml.DocumentNode:
+		k.HeadComment = join("\n", k.HeadComment, line)
+	default:
+		k.LineComment = line
 	}
 }
 
-- 
2.43.0


From 7e053098bdb619e36ad6503ba1bfbf80ffc67f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 36/50] fix: quote texts that blocks cannot represent

Texts starting with a blank, and in folded style texts with indented lines or
several line breaks at the end, were read back as other texts or made the
output invalid.
---
 internal/actions/style.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index c80a751..8bd471c 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -158,18 +158,39 @@ func placeComment(s Style, k, v *yaml.Node) {
 	}
 }
 
-// scalarStyle leaves out the styles that would turn a value of another type into a string.
+// scalarStyle leaves out the styles in which a value would be read as another one.
 func scalarStyle(s Style, n *yaml.Node) Style {
+	quoted := s&(DoubleQuotedStyle|SingleQuotedStyle) != 0
+
 	switch n.ShortTag() {
 	case "!!null", "!!bool", "!!int", "!!float", "!!timestamp", "!!merge":
 		if s&TaggedStyle == 0 {
 			s &^= DoubleQuotedStyle | SingleQuotedStyle | LiteralStyle | FoldedStyle
 		}
+	default:
+		if !quoted && needsQuotes(s, n.Value) {
+			s |= DoubleQuotedStyle
+		}
 	}
 
 	return s
 }
 
+// needsQuotes reports whether the encoder cannot write a text such that it reads the same without quotes.
+func needsQuotes(s Style, text string) bool {
+	block := s&(LiteralStyle|FoldedStyle) != 0 || strings.Contains(text, "\n")
+	folded := s&(LiteralStyle|FoldedStyle) == FoldedStyle
+
+	switch {
+	case block && text != "" && strings.Contains(" \t\n", text[:1]):
+		return true // the indentation of a block starting with a blank is not written as such
+	case folded:
+		return strings.Contains(text, "\n ") || strings.Contains(text, "\n\t") || strings.HasSuffix(text, "\n\n")
+	default:
+		return false
+	}
+}
+
 func GetStyleFromConfig(v ...string) (Styles, error) {
 	var result Styles
 
-- 
2.43.0


From f009da4ce106463c55ba452dd1e9a77c3b76a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 37/50] fix: keep << texts and timestamps in flow style from
 being read as other values

---
 internal/actions/style.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 8bd471c..2388052 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -167,6 +167,10 @@ func scalarStyle(s Style, n *yaml.Node) Style {
 		if s&TaggedStyle == 0 {
 			s &^= DoubleQuotedStyle | SingleQuotedStyle | LiteralStyle | FoldedStyle
 		}
+
+		if n.ShortTag() == "!!timestamp" && s&FlowStyle != 0 && strings.Contains(n.Value, ":") {
+			s |= TaggedStyle // it is quoted in flow style, where its colons are not allowed otherwise
+		}
 	default:
 		if !quoted && needsQuotes(s, n.Value) {
 			s |= DoubleQuotedStyle
@@ -178,6 +182,10 @@ func scalarStyle(s Style, n *yaml.Node) Style {
 
 // needsQuotes reports whether the encoder cannot write a text such that it reads the same without quotes.
 func needsQuotes(s Style, text string) bool {
+	if text == "<<" {
+		return true // it would be read as a merge key
+	}
+
 	block := s&(LiteralStyle|FoldedStyle) != 0 || strings.Contains(text, "\n")
 	folded := s&(LiteralStyle|FoldedStyle) == FoldedStyle
 
-- 
2.43.0


From ca26a9b5cc188a4707b13eb222d2e4f0fefbb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 38/50] fix: make the combination of nulls, floats and
 timestamps with text a string

It kept the type of the original, which the text is not: the output could not
be read, and filters of later queries panicked.
---
 internal/actions/combine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index ab15c6d..83a71d4 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -59,6 +59,9 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 		originalValue.Value = strconv.FormatBool(o && n)
 
 		return nil
+
+	case "!!null", "!!float", "!!timestamp", "!!merge":
+		originalValue.Tag = "!!str" // the concatenated text is none of these
 	}
 
 	originalValue.Value += newValue.Value
-- 
2.43.0


From c33e715febdb94e7e3fc2ece24fd86bac7e95bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 39/50] fix: keep line comments away from anchors

A comment between a key and the anchor of its value made the output invalid.
---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 2388052..ebe0ad2 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -151,7 +151,7 @@ func placeComment(s Style, k, v *yaml.Node) {
 		v.LineComment = line
 	case k == v:
 		k.HeadComment, k.FootComment = join("\n", k.HeadComment, line, foot), ""
-	case s&(FlowStyle|TaggedStyle) != 0 || k.Kind == yaml.DocumentNode:
+	case s&(FlowStyle|TaggedStyle) != 0 || v.Anchor != "" || k.Kind == yaml.DocumentNode:
 		k.HeadComment = join("\n", k.HeadComment, line)
 	default:
 		k.LineComment = line
-- 
2.43.0


From 79706b086a73640cb8f28da1bda8bad7bb2d7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 40/50] fix: extend what an alias refers to when merging into
 or combining with the alias

---
 internal/actions/alias.go   | 25 +++++++++++++++++--------
 internal/actions/combine.go |  4 ++++
 internal/actions/merge.go   | 10 ++++++++--
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
index 8d00dea..02bac8c 100644
--- a/internal/actions/alias.go
+++ b/internal/actions/alias.go
@@ -24,14 +24,7 @@ func inlineAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
 			return nil
 		}
 
-		resolved, err := ResolveAliases(n)
-		if err != nil {
-			return err
-		}
-
-		*n = *resolved
-
-		return nil
+		return detachAlias(n)
 	}
 
 	if n.Anchor != "" {
@@ -47,6 +40,22 @@ func inlineAliases(n *yaml.Node, anchors map[string]*yaml.Node) error {
 	return nil
 }
 
+// detachAlias makes an alias a copy of what it refers to, so that it can be changed without changing the anchored node.
+func detachAlias(n *yaml.Node) error {
+	if n.Kind != yaml.AliasNode {
+		return nil
+	}
+
+	resolved, err := ResolveAliases(n)
+	if err != nil {
+		return err
+	}
+
+	*n = *resolved
+
+	return nil
+}
+
 // ResolveAliases returns a copy of the tree without aliases and anchors.
 func ResolveAliases(n *yaml.Node) (*yaml.Node, error) {
 	return resolveAliases(n, map[*yaml.Node]bool{})
diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 83a71d4..f4d5c4d 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -18,6 +18,10 @@ var ErrCombineOnlyForScalars = errors.New("combine action can only be used on sc
 var ErrCombineOverflow = errors.New("integer overflow during combine")
 
 func CombineNode(originalValue, newValue *yaml.Node) error {
+	if err := detachAlias(originalValue); err != nil {
+		return err
+	}
+
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index d3ac6be..c14c90b 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,9 +36,15 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
-	switch n.Kind {
-	case 0: // no value was given
+	if n.Kind == 0 { // no value was given
 		return nil
+	}
+
+	if err := detachAlias(o); err != nil {
+		return err
+	}
+
+	switch n.Kind {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
 	case yaml.MappingNode:
-- 
2.43.0


From 3cd1ceb535142ff775dbc8cc6a02fe71aaaf613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 41/50] fix: report numbers a filter cannot compare as an error
 instead of crashing

---
 internal/overlays/overlay.go | 9 ++++++++-
 internal/overlays/query.go   | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index ab27a4e..c2af32a 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -23,7 +23,14 @@ type Overlay struct {
 	DocumentIndex []int           `yaml:"documentIndex,omitempty"`
 }
 
-func (o *Overlay) Apply(n *yaml.Node) error {
+func (o *Overlay) Apply(n *yaml.Node) (err error) {
+	// the JSONPath library panics when a filter compares numbers it cannot parse, such as 0x1F or .inf
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w [%q], %v", ErrQueryFailed, o.Name, r)
+		}
+	}()
+
 	log.Debugf("Checking Document Queries for [%q]", o.Name)
 
 	if ok := o.DocumentQuery.checkQueries(n); !ok {
diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 955a1b4..ae2bdf8 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -15,6 +15,9 @@ import (
 // ErrEmptyQuery occurs when there is nothing where a query is expected.
 var ErrEmptyQuery = errors.New("empty query")
 
+// ErrQueryFailed occurs when a query cannot be evaluated on a document.
+var ErrQueryFailed = errors.New("unable to evaluate the queries of overlay")
+
 type Query struct {
 	yamlPath    *yamlpath.Path
 	queryString string
-- 
2.43.0


From 14fdecc97d82a6b91e61bb52ff212bca41b00a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 42/50] fix: quote texts starting with a line separator in
 block styles

---
 internal/actions/style.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ebe0ad2..a86f559 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -190,10 +190,16 @@ func needsQuotes(s Style, text string) bool {
 	folded := s&(LiteralStyle|FoldedStyle) == FoldedStyle
 
 	switch {
-	case block && text != "" && strings.Contains(" \t\n", text[:1]):
+	case block && strings.IndexAny(text, " \t\n\u2028\u2029") == 0:
 		return true // the indentation of a block starting with a blank is not written as such
 	case folded:
-		return strings.Contains(text, "\n ") || strings.Contains(text, "\n\t") || strings.HasSuffix(text, "\n\n")
+		for _, s := range []string{"\n ", "\n\t", "\n\u2028", "\n\u2029"} {
+			if strings.Contains(text, s) {
+				return true
+			}
+		}
+
+		return strings.HasSuffix(text, "\n\n")
 	default:
 		return false
 	}
-- 
2.43.0


From 0831e2548265a5ad3c5848c3c828b0967e8c668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 43/50] verif: let steps that are not listed wait for the
 listed ones

---
 internal/overlays/workstream.go |  2 ++
 internal/probe/probe_on.go      | 18 ++++--------------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/internal/overlays/workstream.go b/internal/overlays/workstream.go
index 2fe4bdd..68b340a 100644
--- a/internal/overlays/workstream.go
+++ b/internal/overlays/workstream.go
@@ -49,6 +49,8 @@ func (s *WorkStream) StartHandler() error {
 		probe.Begin("apply", o.Path)
 
 		if err := o.Overlay.Apply(o.Node); err != nil {
+			probe.End("apply", o.Path)
+
 			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
 		}
 
diff --git a/internal/probe/probe_on.go b/internal/probe/probe_on.go
index cb8f60b..b1e5f57 100644
--- a/internal/probe/probe_on.go
+++ b/internal/probe/probe_on.go
@@ -7,8 +7,8 @@
 // Package probe records the steps of a run, and can make them happen in a given order.
 //
 // YOT_PROBE_TRACE names the file the steps are written to, one JSON object per line.
-// YOT_PROBE_ORDER names a file with the order of the steps, one "step path" per line: a step that is listed waits
-// until all steps listed before it have ended, but not longer than the time limit.
+// YOT_PROBE_ORDER names a file with the order of the steps, one "step path" per line: a step waits until all steps
+// listed before it, or all of them if it is not listed, have ended, but not longer than the time limit.
 package probe
 
 import (
@@ -70,16 +70,6 @@ func init() {
 	}
 }
 
-func listed(step string) bool {
-	for _, s := range order {
-		if s == step {
-			return true
-		}
-	}
-
-	return false
-}
-
 // Begin waits until it is the step's turn.
 func Begin(step, path string) {
 	mu.Lock()
@@ -87,7 +77,7 @@ func Begin(step, path string) {
 
 	key := step + " " + path
 
-	if free || !listed(key) {
+	if free || len(order) == 0 || order[0] == key {
 		return
 	}
 
@@ -104,7 +94,7 @@ func Begin(step, path string) {
 	})
 	defer t.Stop()
 
-	for !free && listed(key) && order[0] != key {
+	for !free && len(order) != 0 && order[0] != key {
 		cond.Wait()
 	}
 }
-- 
2.43.0


From 4e29832cac5d915423e260c33772c1062f0dc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 44/50] fix: write an empty null that is a map key as null, not
 as an empty string

---
 internal/actions/style.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index a86f559..01b20de 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -85,17 +85,31 @@ func setStyle(s Style, n ...*yaml.Node) {
 			nv.Style = yaml.Style(s)
 
 			placeComments(s, nv)
+
+			if nv.Kind == yaml.MappingNode {
+				for i := 0; i < len(nv.Content); i += 2 {
+					spellNull(nv.Content[i])
+				}
+			}
+
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = yaml.Style(scalarStyle(s, nv))
 
-			if s&FlowStyle != 0 && nv.Value == "" && nv.ShortTag() == "!!null" {
-				nv.Value = "null" // an empty value would be written as an empty string in flow style
+			if s&FlowStyle != 0 {
+				spellNull(nv)
 			}
 		}
 	}
 }
 
+// spellNull spells out an empty null, which would be written as an empty string in flow style or as a key.
+func spellNull(n *yaml.Node) {
+	if n.Kind == yaml.ScalarNode && n.Value == "" && n.ShortTag() == "!!null" {
+		n.Value = "null"
+	}
+}
+
 // placeComments moves the comments of maps, lists and their keys to where the encoder can write them:
 // in other places it breaks the line between a key and its value, or writes them with one of the next values.
 func placeComments(s Style, n *yaml.Node) {
-- 
2.43.0


From 6527ad626dddfd37236cd9be3aebcd14ddd13b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:02 +0000
Subject: [PATCH 45/50] fix: ignore a missing path if injectPath is an empty
 list

---
 internal/overlays/onmissing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 0ce94b7..e271846 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -84,7 +84,7 @@ func (o *Overlay) handleInjectPath(n *yaml.Node) error {
 	_, err := builder.NewPaths(o.Query.Paths())
 	if err != nil {
 		if errors.Is(err, builder.ErrInvalidPathSyntax) {
-			if o.OnMissing.InjectPath == nil {
+			if len(o.OnMissing.InjectPath) == 0 {
 				log.Debugf("ignoring %s at %s due to %s\n", o.Action, o.Query, ErrOnMissingNoInjectPath)
 
 				return nil
-- 
2.43.0


From 139ee6807e09ea7d6067cc62ddf61b98cfd755e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 46/50] fix: keep line comments on one line when their markers
 stand for several

---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index c14c90b..a411289 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -201,7 +201,9 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 	}
 
 	if n.LineComment != "" {
-		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+		lineComment := format(n.LineComment, value, lc, hc, fc, keyName)
+		// a line comment ends with the line, whatever its markers stand for
+		o.LineComment = strings.ReplaceAll(strings.TrimRight(lineComment, "\n"), "\n", " ")
 	}
 
 	if n.FootComment != "" {
-- 
2.43.0


From ffc2ac7b872af5f0d99f4ad940b9a1e08bd1444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:45 +0000
Subject: [PATCH 47/50] fix: report texts the yaml package panics on as invalid

---
 internal/instructions/config.go       |  2 +-
 internal/instructions/instructions.go |  2 +-
 internal/instructions/values.go       |  2 +-
 internal/instructions/yamlfile.go     | 16 +++++++++++++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 691a38e..65ef677 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -206,7 +206,7 @@ func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 
 func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 	if cfg.Overlay.Query != nil {
-		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {
+		if err := readYAML(func() error { return yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value) }); err != nil {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
 		}
 
diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 656a9fb..c3bc5f2 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -102,7 +102,7 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 	}
 
 	dc := yaml.NewDecoder(reader)
-	if err := dc.Decode(&instructions); err != nil {
+	if err := readYAML(func() error { return dc.Decode(&instructions) }); err != nil {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 44d2dd1..a7c7c85 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -25,7 +25,7 @@ func getValues(fileNames []string) (interface{}, error) {
 
 		yd := yaml.NewDecoder(reader)
 
-		if err := yd.Decode(&yamlValue); err != nil {
+		if err := readYAML(func() error { return yd.Decode(&yamlValue) }); err != nil {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 774ceef..ba4384a 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -20,6 +20,9 @@ var ErrFoundDirectoryWithPathOutput = errors.New("found directory as input path
 // ErrEmptyEntry occurs when a list in the instructions file has an entry without content.
 var ErrEmptyEntry = errors.New("found an empty list entry")
 
+// ErrInvalidYAML occurs when the yaml package cannot cope with a text.
+var ErrInvalidYAML = errors.New("invalid yaml")
+
 // YamlFile is used to define which files should be manipulated and overlays specific to that file.
 type YamlFile struct {
 	// Optional Name to define for organization purposes.
@@ -111,6 +114,17 @@ func hasEmptyOverlay(os []*overlays.Overlay) bool {
 	return false
 }
 
+// readYAML makes an error of the panics that some invalid texts cause in the yaml package.
+func readYAML(read func() error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", ErrInvalidYAML, r)
+		}
+	}()
+
+	return read()
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
@@ -122,7 +136,7 @@ func (yf *YamlFile) readYamlFile() error {
 	for {
 		var y yaml.Node
 
-		if err := dc.Decode(&y); errors.Is(err, io.EOF) {
+		if err := readYAML(func() error { return dc.Decode(&y) }); errors.Is(err, io.EOF) {
 			if reader, ok := reader.(*os.File); ok {
 				CloseFile(reader)
 			}
-- 
2.43.0


From ba35631670f2747e022124ed7f8044b7a5215832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:54 +0000
Subject: [PATCH 48/50] fix: read the files of an input directory that is a
 symbolic link

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index cd45915..68b9e57 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -83,7 +83,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// with the separator at the end, a symbolic link to a directory is followed
+	err := filepath.Walk(p+string(os.PathSeparator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
-- 
2.43.0


From 19fb191bb46d39cc5f184fbfcc9fe95c68be8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:04 +0000
Subject: [PATCH 49/50] fix: show the tag of a missing value in tagged style

---
 internal/actions/style.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 01b20de..bcf88e6 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,6 +76,10 @@ func SetStyle(ss Styles, n ...*yaml.Node) {
 
 func setStyle(s Style, n ...*yaml.Node) {
 	for _, nv := range n {
+		if s&TaggedStyle != 0 && nv.IsZero() {
+			nv.Kind, nv.Value = yaml.ScalarNode, "null" // no value was given
+		}
+
 		if s&TaggedStyle != 0 && nv.Tag == "" && nv.Kind != 0 {
 			nv.Tag = nv.ShortTag() // nodes that were not read have no tag yet
 		}
-- 
2.43.0


From a1abb32baa14523f5ad4bfb5ee1cb3c3a016b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:43 +0000
Subject: [PATCH 50/50] fix: compare the values of a documentQuery in linear
 time

---
 internal/overlays/documentquery.go | 46 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 18c0e3a..e6cd255 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -6,8 +6,6 @@ package overlays
 import (
 	"errors"
 
-	"github.com/google/go-cmp/cmp"
-	"github.com/google/go-cmp/cmp/cmpopts"
 	"gopkg.in/yaml.v3"
 )
 
@@ -46,25 +44,6 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	type data struct {
-		Kind    yaml.Kind
-		Tag     string
-		Value   string
-		Content []*yaml.Node
-	}
-
-	// only the data is compared, not its presentation in the file
-	compareOptions := cmp.Options{
-		cmpopts.EquateEmpty(),
-		cmp.Transformer("data", func(n *yaml.Node) data {
-			if n.Kind == yaml.AliasNode {
-				n = n.Alias
-			}
-
-			return data{Kind: n.Kind, Tag: n.ShortTag(), Value: n.Value, Content: n.Content}
-		}),
-	}
-
 	if dq.Conditions == nil {
 		return true
 	}
@@ -77,7 +56,7 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(result, &c.Value, compareOptions); !ok {
+				if ok := equalData(result, &c.Value); !ok {
 					return false
 				}
 			}
@@ -87,6 +66,29 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 	return true
 }
 
+// equalData compares the data of two nodes, not its presentation in the file.
+func equalData(x, y *yaml.Node) bool {
+	if x.Kind == yaml.AliasNode {
+		x = x.Alias
+	}
+
+	if y.Kind == yaml.AliasNode {
+		y = y.Alias
+	}
+
+	if x.Kind != y.Kind || x.ShortTag() != y.ShortTag() || x.Value != y.Value || len(x.Content) != len(y.Content) {
+		return false
+	}
+
+	for i := range x.Content {
+		if !equalData(x.Content[i], y.Content[i]) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // hasEmptyEntry determines if a group or a condition has no content.
 func (dq DocumentQueries) hasEmptyEntry() bool {
 	for _, q := range dq {
-- 
2.43.0

