package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Profile says what the random scenarios of a check contain; numbers are percentages.
type Profile struct {
	Comments       int // comments in documents
	OvComments     int // comments in overlay values
	Markers        int // markers in overlay values
	Sed            int
	Aliases        int // aliases in documents and overlay values
	Multi          int // several documents in a file
	Depth          int
	MaxFiles       int
	MaxOvs         int
	Actions        []string // drawn from
	Common         int      // common overlays
	DocOvs         int      // documents entries
	DocIndex       int
	DocQuery       int
	Missing        int // query that finds nothing
	OnMissing      int
	Plain          int // plain queries only
	Filters        int
	Keys           int // key selections
	Lists          int // list values
	Fit            int // the value is made to fit the target
	Paths          int // several directories, outputPath, directories as input, repeated entries
	Stdout         int
	Settings       int // other settings than the defaults
	AdHoc          int
	Stdin          int
	InstrStdin     int // the instructions come from the standard input
	BadInput       int // unreadable inputs
	Break          int // invalid instructions
	FailCombine    int
	Dress          int  // other ways to write files
	Big            int  // more than ten of something
	Empty          int  // emptied documents, empty files
	Text           bool // compare texts, not only data
	Repeat         int  // further overlays on the places of earlier ones
	NoValue        int
	Numbers        int // big numbers
	Odd            int // documents with unusual scalars, keys and layouts
	Scalars        int // mostly scalars in maps
	AdInstr        int // ad hoc overlays together with instructions
	Roots          int // overlays that delete the whole document
	Dup            int // indexes listed twice, entries for the same document
	DefaultOM      int // a default for onMissing
	Deeper         int // queries into what an earlier overlay inserted
	MinFiles       int
	Blocked        int // outputs that cannot be written
	Full           int // standard output is on a full device
	Settings1      int // another output directory
	Stale          int // files where results go
	Many           int // further entries for the same files
	LogLevel       int
	RemoveComments int
	EnvCmd         int // yot env
	BadSetting     int
	Style          int
	Levels         bool // compare the levels of messages
	Rerun          bool // the results are put through yot again
	Equivalent     int  // the equivalent instructions file
	Queries        bool // elaborate queries
}

func base() Profile {
	return Profile{Depth: 3, MaxFiles: 2, MaxOvs: 3, Actions: []string{"merge", "replace", "delete", "combine"}, Multi: 30, Common: 20,
		DocOvs: 10, DocIndex: 10, DocQuery: 10, Missing: 12, OnMissing: 40, Plain: 40, Filters: 25, Keys: 8, Lists: 40, Fit: 50,
		Paths: 15, Stdout: 50, FailCombine: 2, Empty: 4, Aliases: 8, Repeat: 35, NoValue: 2, Numbers: 10, AdInstr: 33, Dup: 3, InstrStdin: 6, Dress: 8, Big: 7}
}

type Gen struct {
	r    *rand.Rand
	p    Profile
	qt   map[string]*Path // the paths used, by text
	odd  bool
	big  string // what there is a lot of
	feet bool   // comments after something as often as others
}

func (g *Gen) pct(n int) bool { return g.r.Intn(100) < n }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

var keyPool = []string{"a", "b", "c", "name", "kind", "metadata", "labels", "items", "spec", "ports", "d-e", "x_y", "app.kubernetes.io/name", "two words", "data", "A", "p,q", "k[0]", "it's", `say "hi"`, `w\s`, " edge", "r:s"}

func (g *Gen) key() string { return keyPool[g.r.Intn(len(keyPool))] }

var wordPool = []string{"x", "web", "nginx", "prod", "dev", "a b", "v1", "Deployment", "Service", "foo", "bar", "foo-bar", "1.2.3", "é", "日本", "x=y", "a/b", "Foo", "fo"}

func (g *Gen) word() string {
	if g.r.Intn(25) == 0 {
		return pick(g.r, []string{"80%full", "%v", "100%", "%k-%v", "%h", "50%x", "%l%f", "%v{s/a/b/}"})
	}
	return wordPool[g.r.Intn(len(wordPool))]
}

func (g *Gen) simpleNumber() string {
	r := g.r
	switch r.Intn(4) {
	case 0:
		return strconv.Itoa(r.Intn(5))
	case 1:
		return strconv.Itoa(r.Intn(2000) - 1000)
	case 2:
		return fmt.Sprintf("%d.%d", r.Intn(10), r.Intn(9)+1)
	}
	return strconv.Itoa(r.Intn(100))
}

func strNode(s string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s} }
func rawNode(tag, s string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: tag, Value: s}
}
func mapNode(c ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: c}
}
func seqNode(c ...*yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: c}
}

func (g *Gen) number() string {
	if g.pct(g.p.Numbers) {
		return pick(g.r, []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "1234567890123", "-1", "4611686018427387904", "2147483647", "2147483648", "-2147483649", "9007199254740993"})
	}
	switch g.r.Intn(3) {
	case 0:
		return strconv.Itoa(g.r.Intn(10))
	case 1:
		return strconv.Itoa(g.r.Intn(100000) - 50000)
	}
	return strconv.Itoa(g.r.Intn(256))
}

// boolean is a boolean, in the spellings of YAML where combinations are tested.
func (g *Gen) boolean() *yaml.Node {
	if g.p.FailCombine > 20 || g.p.FailCombine > 10 && g.p.Fit > 80 {
		return rawNode("!!bool", pick(g.r, []string{"true", "false", "true", "True", "TRUE", "False", "FALSE"}))
	}
	return rawNode("!!bool", pick(g.r, []string{"true", "false"}))
}

func (g *Gen) scalar() *yaml.Node {
	if g.odd && g.r.Intn(4) == 0 {
		return g.oddScalar()
	}
	switch g.r.Intn(12) {
	case 0, 1, 2:
		return rawNode("!!int", g.number())
	case 3, 4:
		return g.boolean()
	case 5:
		return rawNode("!!null", pick(g.r, []string{"null", "~", ""}))
	case 6:
		return rawNode("!!float", fmt.Sprintf("%d.%d", g.r.Intn(10), g.r.Intn(9)+1))
	case 7:
		return strNode(pick(g.r, []string{"12", "true", "null", "", "1.5", "- a", "k: v", "#no", "yes", "~"}))
	case 8:
		if g.r.Intn(3) == 0 {
			return strNode(pick(g.r, []string{"line one\nline two\n", "a\nb", "  lead\n  lead\n"}))
		}
	}
	return strNode(g.word())
}

// oddScalar: values whose text or type is easily lost.
func (g *Gen) oddScalar() *yaml.Node {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return &yaml.Node{Kind: yaml.ScalarNode, Value: pick(r, []string{"0x1F", "1_000", "0o17", "012", "0b11", "+7", "1e3", "1.50", ".5", "-0.0", "6.02e+23", ".inf", "-.Inf", ".nan", "007", "123456789012345678901234567890"})}
	case 1:
		return &yaml.Node{Kind: yaml.ScalarNode, Value: pick(r, []string{"True", "FALSE", "yes", "No", "on", "OFF", "y", "n", "NULL", "Null", "2001-12-14", "2001-12-14T21:59:43.10-05:00", "12:30:45", "1.2.3", "_", "=", "<"})}
	case 2:
		t := pick(r, []string{"!!str", "!!int", "!custom", "!!binary", "!Ref"})
		v := pick(r, []string{"x", "a b", "é"})
		if t == "!!int" || t == "!!str" {
			v = "12"
		} else if t == "!!binary" {
			v = "aGVsbG8="
		}
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: t, Value: v, Style: yaml.TaggedStyle}
	case 3:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: pick(r, []string{"0x1F", "1_000", "12", "1.0", "true", "null", "~", "2001-12-14", "", " ", "yes", "on", "012"}), Style: pick(r, []yaml.Style{yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle})}
	case 4:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: pick(r, []string{"one\ntwo\n", "one\n\ntwo", "  indented\nless\n", "trailing \nspace\n", "a\n\n\n", "tab\there\n", "#!/bin/sh\necho: hi\n"}), Style: pick(r, []yaml.Style{yaml.LiteralStyle, yaml.FoldedStyle})}
	}
	return strNode(pick(r, []string{"a: b", "- x", "#c", "@x", "`x`", "{a}", "[b]", "&x", "*x", "!x", "|", ">", "%x", "'q'", "\"dq\"", "a #b", "a\\b", "x:", "\u00a0", "\tx", "a,b", "?", "? x", "---", "...", "caf\u00e9", "\u2028", "\u2029x", "a\n\u2028b", "x\u2028"}))
}

func (g *Gen) value(depth int) *yaml.Node {
	k := g.r.Intn(10)
	if depth <= 0 || k < 4 || g.pct(g.p.Scalars) {
		return g.scalar()
	}
	if k < 8 || !g.pct(g.p.Lists*2) {
		return g.mapping(depth)
	}
	n := g.r.Intn(4)
	s := seqNode()
	uniform := g.r.Intn(2) == 0
	for i := 0; i < n; i++ {
		if uniform && depth > 1 {
			m := mapNode(strNode("name"), strNode(g.word()))
			if g.r.Intn(2) == 0 {
				m.Content = append(m.Content, strNode("v"), g.value(depth-2))
			}
			s.Content = append(s.Content, m)
		} else {
			s.Content = append(s.Content, g.value(depth-1))
		}
	}
	return s
}

func (g *Gen) mapping(depth int) *yaml.Node {
	m := mapNode()
	n := g.r.Intn(4)
	if n == 0 && g.r.Intn(2) == 0 {
		n = 2
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := g.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		kn := strNode(k)
		if g.r.Intn(25) == 0 {
			kn = rawNode("!!int", "7")
		}
		if g.odd && g.r.Intn(10) == 0 {
			kn = pick(g.r, []*yaml.Node{rawNode("!!bool", "true"), rawNode("!!float", "1.5"), rawNode("!!null", "~"), rawNode("!!str", "12"), rawNode("!!str", "a: b"), rawNode("!!str", "on"), rawNode("!!int", "0x10"), rawNode("!!str", "")})
			c := *kn
			kn = &c
			if seen[kn.Value] {
				continue
			}
			seen[kn.Value] = true
		}
		m.Content = append(m.Content, kn, g.value(depth-1))
	}
	return m
}

// large makes a document with more than ten keys, items or levels.
func (g *Gen) large() *yaml.Node {
	m := mapNode(strNode(g.key()), g.value(1))
	n := 10 + g.r.Intn(6)
	if g.big == "levels" && g.p.DocQuery >= 90 {
		n += 10
	}
	small := func() *yaml.Node {
		if g.r.Intn(4) == 0 {
			return g.mapping(1)
		}
		return g.scalar()
	}
	var v *yaml.Node
	switch g.big {
	case "keys":
		v = mapNode()
		for i := 0; i < n; i++ {
			v.Content = append(v.Content, strNode("k"+strconv.Itoa(i)), small())
		}
	case "items":
		v = seqNode()
		for i := 0; i < n; i++ {
			v.Content = append(v.Content, small())
		}
	default:
		v = g.value(1)
		for i := 0; i < n; i++ {
			if g.r.Intn(3) == 0 {
				v = seqNode(v)
			} else {
				v = mapNode(strNode(g.key()), v)
			}
		}
	}
	if k := g.key(); k != m.Content[0].Value {
		m.Content = append(m.Content, strNode(k), v)
	} else {
		m.Content[1] = v
	}
	return m
}

func (g *Gen) root() *yaml.Node {
	if (g.big == "keys" || g.big == "items" || g.big == "levels") && g.r.Intn(3) > 0 {
		return g.large()
	}
	switch g.r.Intn(14) {
	case 0:
		return g.value(g.p.Depth)
	case 1:
		s := seqNode()
		for i := g.r.Intn(4); i > 0; i-- {
			s.Content = append(s.Content, g.value(g.p.Depth-1))
		}
		return s
	}
	m := g.mapping(g.p.Depth)
	have := map[string]bool{}
	for i := 0; i < len(m.Content); i += 2 {
		have[m.Content[i].Value] = true
	}
	for i := 0; i < 2; i++ {
		if k := g.key(); !have[k] {
			have[k] = true
			m.Content = append(m.Content, strNode(k), g.value(g.p.Depth-1))
		}
	}
	return m
}

// addComments writes comments onto some nodes.
func (g *Gen) addComments(n *yaml.Node, pct int, text func() string, top bool) {
	c := func() string {
		return pick(g.r, []string{"# ", "# ", "# ", "# ", "# ", "# ", "# ", "# ", "## ", "#", "#!", "#\t"}) + text()
	}
	if top && (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && g.r.Intn(5) == 0 && g.pct(pct) {
		n.Style = yaml.FlowStyle
		n.LineComment = c()
		return
	}
	switch n.Kind {
	case yaml.DocumentNode:
		if g.pct(pct) {
			n.HeadComment = c()
		}
		if g.pct(pct / 2) {
			n.FootComment = c()
		}
	case yaml.MappingNode:
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, v := n.Content[i], n.Content[i+1]
			if g.pct(pct) {
				k.HeadComment = c()
				if g.r.Intn(4) == 0 {
					k.HeadComment += "\n" + c()
				}
			}
			if g.pct(pct / g.foot()) {
				k.FootComment = c()
			}
			if g.pct(pct) {
				if v.Kind == yaml.ScalarNode {
					v.LineComment = c()
				} else if g.r.Intn(3) == 0 {
					v.Style = yaml.FlowStyle
					v.LineComment = c()
					continue
				} else if len(v.Content) > 0 {
					k.LineComment = c()
				}
			}
			g.addComments(v, pct, text, false)
		}
		return
	case yaml.SequenceNode:
		for _, v := range n.Content {
			if g.pct(pct) {
				v.HeadComment = c()
			}
			flow := v.Kind != yaml.ScalarNode && g.r.Intn(3) == 0
			if g.pct(pct) && (v.Kind == yaml.ScalarNode || flow) {
				v.LineComment = c()
			}
			if g.pct(pct / g.foot()) {
				v.FootComment = c()
			}
			if flow {
				v.Style = yaml.FlowStyle
				continue
			}
			g.addComments(v, pct, text, false)
		}
		return
	case yaml.ScalarNode:
		if top && g.pct(pct) {
			n.LineComment = c()
		}
	}
	for _, x := range n.Content {
		g.addComments(x, pct, text, false)
	}
}

// foot is how much rarer a comment after something is than others.
func (g *Gen) foot() int {
	if g.feet {
		return 1
	}
	return 3
}

func (g *Gen) commentText() string {
	if g.pct(g.p.Markers) && g.r.Intn(5) == 0 {
		return pick(g.r, []string{"about %v", "%l and %h", "f: %f", "%k%k", "%%v", "%v{s/a/b/}"})
	}
	return pick(g.r, []string{"keep me", "note", "x: y", "- item", "été", "TODO(me): a # b", "%", "100%"})
}

// addAliases turns some nodes of a document into anchors and aliases.
func (g *Gen) addAliases(root *yaml.Node) {
	var all []*yaml.Node
	var rec func(n *yaml.Node)
	rec = func(n *yaml.Node) {
		all = append(all, n)
		if n.Kind == yaml.MappingNode {
			for i := 1; i < len(n.Content); i += 2 {
				rec(n.Content[i])
			}
		} else {
			for _, c := range n.Content {
				rec(c)
			}
		}
	}
	for _, c := range root.Content {
		if root.Kind == yaml.MappingNode {
			continue
		}
		rec(c)
	}
	if root.Kind == yaml.MappingNode {
		for i := 1; i < len(root.Content); i += 2 {
			rec(root.Content[i])
		}
	}
	if len(all) < 2 {
		return
	}
	for try := 0; try < 3; try++ {
		i := g.r.Intn(len(all))
		j := g.r.Intn(len(all))
		if i >= j {
			continue
		}
		src, dst := all[i], all[j]
		if inside(src, dst) || src.Kind == yaml.AliasNode || dst.Kind == yaml.AliasNode || hasAnchor(dst) {
			continue
		}
		if src.Anchor == "" {
			src.Anchor = fmt.Sprintf("anc%d", i)
		}
		*dst = yaml.Node{Kind: yaml.AliasNode, Value: src.Anchor, Alias: src}
	}
}

func inside(a, b *yaml.Node) bool {
	if a == b {
		return true
	}
	for _, c := range a.Content {
		if inside(c, b) {
			return true
		}
	}
	return false
}

func hasAnchor(n *yaml.Node) bool {
	if n.Anchor != "" {
		return true
	}
	for _, c := range n.Content {
		if hasAnchor(c) {
			return true
		}
	}
	return false
}

func hasAliases(n *yaml.Node) bool {
	if n.Kind == yaml.AliasNode {
		return true
	}
	for _, c := range n.Content {
		if hasAliases(c) {
			return true
		}
	}
	return false
}

func encode(nodes []*yaml.Node, indent int) string {
	b := new(bytes.Buffer)
	ye := yaml.NewEncoder(b)
	ye.SetIndent(indent)
	for _, n := range nodes {
		if err := ye.Encode(n); err != nil {
			panic(err)
		}
	}
	ye.Close()
	return b.String()
}

// fileText makes the text of an input file; ok tells whether it can be parsed.
func (g *Gen) fileText() string {
	for {
		t := g.fileText1()
		if docs, err := parseDocs(t); err == nil {
			deep := false
			for _, d := range docs {
				if size(d) > 60 && (g.big == "" || size(d) > 120) {
					deep = true
				}
			}
			if !deep {
				return g.dressed(t)
			}
		}
	}
}

// dressed writes the same documents in another of the ways YAML files are written.
func (g *Gen) dressed(t string) string {
	r := g.r
	if g.p.Text || !g.pct(g.p.Dress) {
		return t
	}
	u := t
	if r.Intn(8) == 0 && strings.HasSuffix(t, "\n") {
		// more than the buffers of line readers take
		u = t + pick(r, []string{"zz-long: ", "- ", "zz-long: &zl "}) + strings.Repeat(pick(r, []string{"0123456789abcdef", "word ", "é"}), 4200) + "end\n"
		if _, err := parseDocs(u); err == nil {
			return u
		}
		u = t
	}
	if r.Intn(4) == 0 {
		u = strings.TrimSuffix(u, "\n")
	}
	switch r.Intn(7) {
	case 0, 1:
		u = strings.ReplaceAll(u, "\n", "\r\n")
	case 2:
		u = "\ufeff" + u
	case 3:
		u = strings.ReplaceAll(u, "\n---\n", "\n...\n---\n")
		if strings.HasSuffix(u, "\n") {
			u += "...\n"
		}
	case 4:
		if strings.HasPrefix(u, "---") {
			u = "%YAML 1.1\n" + u
		} else {
			u = "%YAML 1.2\n---\n" + u
		}
	case 5:
		u = strings.ReplaceAll(u, "\n---\n", "\n--- # the next one\n")
	case 6:
		u = "\n \n" + u + "\n\n"
	}
	if docs, err := parseDocs(u); err != nil || len(docs) == 0 {
		return t
	}
	return u
}

// short writes the instructions with less text: in flow style, or with aliases for what is there already.
func (g *Gen) short(root *yaml.Node) {
	if g.p.Text || !g.pct(g.p.Dress) {
		return
	}
	if g.r.Intn(3) == 0 {
		root.Style = yaml.FlowStyle
		return
	}
	type slot struct {
		par *yaml.Node
		i   int
		key string
	}
	var slots []slot
	var rec func(n *yaml.Node, key string)
	rec = func(n *yaml.Node, key string) {
		for i, c := range n.Content {
			k := key
			if n.Kind == yaml.MappingNode {
				if i%2 == 0 {
					continue
				}
				k = n.Content[i-1].Value
			}
			slots = append(slots, slot{n, i, k})
			if k != "value" {
				rec(c, k)
			}
		}
	}
	rec(root, "")
	n := 0
	for try := 0; try < 30 && n < 3; try++ {
		a, b := g.r.Intn(len(slots)+1)-1, g.r.Intn(len(slots)+1)-1
		if a < 0 || a >= b || slots[a].key != slots[b].key || len(slots[a].key) < 5 {
			continue
		}
		src, dst := slots[a].par.Content[slots[a].i], slots[b].par.Content[slots[b].i]
		if src.Kind == yaml.AliasNode || dst.Kind == yaml.AliasNode || src.Kind != dst.Kind && slots[a].key != "value" && slots[a].key != "query" || hasAnchor(dst) || src == dst || inside(src, dst) || inside(dst, src) || !inside(root, src) || !inside(root, dst) {
			continue
		}
		if src.Anchor == "" {
			n++
			src.Anchor = "x" + strconv.Itoa(n)
		}
		slots[b].par.Content[slots[b].i] = &yaml.Node{Kind: yaml.AliasNode, Value: src.Anchor, Alias: src}
	}
}

func size(n *yaml.Node) int {
	s := 1
	for _, c := range n.Content {
		s += size(c)
	}
	return s
}

// flowSome writes some maps and lists in flow style.
func (g *Gen) flowSome(n *yaml.Node) {
	if (n.Kind == yaml.MappingNode || n.Kind == yaml.SequenceNode) && g.r.Intn(2) == 0 {
		n.Style = yaml.FlowStyle
		return
	}
	for _, c := range n.Content {
		g.flowSome(c)
	}
}

func (g *Gen) fileText1() string {
	if g.pct(g.p.Empty) {
		return pick(g.r, []string{"", "# only a comment\n", "---\n", "---\n---\na: 1\n", "{}\n", "null\n"})
	}
	n := 1
	if g.pct(g.p.Multi) {
		n += 1 + g.r.Intn(3)
	}
	if g.big == "documents" {
		n = 11 + g.r.Intn(3)
	}
	var docs []*yaml.Node
	for i := 0; i < n; i++ {
		root := g.root()
		if g.big == "documents" && g.r.Intn(3) > 0 {
			root = g.mapping(1)
		}
		if g.p.Comments > 0 {
			g.addComments(root, g.p.Comments, g.commentText, true)
		}
		if !g.p.Text && g.pct(g.p.Aliases) {
			g.addAliases(root)
		}
		if g.odd && g.r.Intn(4) == 0 && g.p.Comments == 0 {
			g.flowSome(root)
		}
		docs = append(docs, root)
	}
	t := encode(docs, pick(g.r, []int{2, 2, 4}))
	if g.r.Intn(3) == 0 {
		t = "---\n" + t
	}
	if g.p.Comments > 0 && g.pct(g.p.Comments) {
		t = "# head of the file\n\n" + t
	}
	return t
}

// ---- overlays ----

type Ov struct {
	Query  []*Path
	Bad    string // text of an invalid query
	Value  *yaml.Node
	Action string
	Node   *yaml.Node // the overlay in the instructions
}

func (g *Gen) fitting(target *yaml.Node, action string) *yaml.Node {
	r := g.r
	if target == nil {
		return g.value(2)
	}
	switch action {
	case "combine":
		if target.Kind != yaml.ScalarNode {
			return g.scalar()
		}
		switch target.ShortTag() {
		case "!!int":
			return rawNode("!!int", g.number())
		case "!!bool":
			return g.boolean()
		}
		return strNode(pick(r, []string{"x", "-suffix", " b", ""}) + g.word())
	case "merge":
		switch target.Kind {
		case yaml.MappingNode:
			m := g.mapping(2)
			for i := 0; i+1 < len(target.Content); i += 2 {
				if r.Intn(3) > 0 || target.Content[i].Kind != yaml.ScalarNode {
					continue
				}
				k := target.Content[i].Value
				for j := 0; j+1 < len(m.Content); j += 2 {
					if m.Content[j].Value == k {
						m.Content = append(m.Content[:j], m.Content[j+2:]...)
						break
					}
				}
				kn := rawNode(target.Content[i].ShortTag(), k)
				if kn.Tag != "!!str" && kn.Tag != "!!int" {
					continue
				}
				m.Content = append(m.Content, kn, g.fitting(target.Content[i+1], action))
			}
			return m
		case yaml.SequenceNode:
			s := seqNode()
			for i := r.Intn(3); i > 0; i-- {
				s.Content = append(s.Content, g.value(1))
			}
			return s
		}
	}
	return g.value(2)
}

// target is the node a plain query selects in a document.
func targetOf(doc *yaml.Node, p *Path) *yaml.Node {
	if doc.Kind != yaml.DocumentNode || len(doc.Content) == 0 {
		return nil
	}
	n := doc.Content[0]
	for _, s := range p.Steps {
		name := s.Name
		switch s.Op {
		case "names":
			name = s.Names[0]
			fallthrough
		case "child":
			if n.Kind != yaml.MappingNode {
				return nil
			}
			var m *yaml.Node
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Value == name {
					m = n.Content[i+1]
					break
				}
			}
			if m == nil {
				return nil
			}
			n = m
		case "idx":
			if n.Kind != yaml.SequenceNode || len(s.Subs) == 0 || s.Subs[0].W != "i" || s.Subs[0].I < 0 || s.Subs[0].I >= len(n.Content) {
				return nil
			}
			n = n.Content[s.Subs[0].I]
		default:
			return nil
		}
	}
	return n
}

func (g *Gen) markerText() string {
	r := g.r
	t := ""
	for i := 1 + r.Intn(3); i > 0; i-- {
		if r.Intn(2) == 0 {
			t += pick(r, []string{"was ", "-", "x", " and ", "(", "%", "a%b", "100% "})
		}
		t += "%" + pick(r, []string{"v", "v", "k", "h", "l", "f"})
		if g.pct(g.p.Sed) {
			t += "{" + pick(r, []string{"s/a/b/", "s/o/0/g", "s/e//g", "s|/|-|g", "s/prod/dev/", "", "s,x,y z,", "s/foo/bar/", "s/l/%v/", "s|d|%|g", "s/q", "s/x/"}) + "}"
		}
		if r.Intn(3) == 0 {
			t += pick(r, []string{" end", ".", "/", "}", " %"})
		}
	}
	return t
}

// mark puts markers into a value; keys only for merge.
func (g *Gen) mark(n *yaml.Node, action string) {
	switch n.Kind {
	case yaml.ScalarNode:
		if action == "merge" && g.pct(g.p.Markers) {
			n.Tag, n.Value = "!!str", g.markerText()
		}
	case yaml.MappingNode:
		for i := 0; i+1 < len(n.Content); i += 2 {
			if action == "merge" && g.pct(g.p.Markers/3) {
				n.Content[i].Value, n.Content[i].Tag = g.markerText(), "!!str"
			}
			g.mark(n.Content[i+1], action)
		}
		// the same key twice cannot be read into values, but is a valid tree; keep them apart
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			for seen[n.Content[i].Value] {
				n.Content[i].Value += "_"
			}
			seen[n.Content[i].Value] = true
		}
	case yaml.SequenceNode:
		for _, c := range n.Content {
			g.mark(c, action)
		}
	}
}

func (g *Gen) queryNode(ps []*Path) *yaml.Node {
	if len(ps) == 1 && g.r.Intn(4) > 0 {
		return strNode(ps[0].Text())
	}
	s := seqNode()
	for _, p := range ps {
		s.Content = append(s.Content, strNode(p.Text()))
	}
	return s
}

func (g *Gen) pathFor(doc *yaml.Node) *Path {
	return g.path(doc, pathOpts{plain: g.pct(g.p.Plain), filters: g.pct(g.p.Filters) && !g.odd, keys: g.pct(g.p.Keys)})
}

// missingPath: child names only, mostly below something that exists.
func (g *Gen) missingPath(doc *yaml.Node) *Path {
	p := &Path{Root: g.r.Intn(3) > 0, Steps: []*PStep{}}
	hs := hits(doc)
	if len(hs) > 0 && g.r.Intn(2) == 0 {
		h := hs[g.r.Intn(len(hs))]
		for _, x := range h.path {
			if s, ok := x.(string); ok && !badName(s) {
				p.Steps = append(p.Steps, childStep(g.r, s))
			} else {
				break
			}
		}
	}
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		if g.r.Intn(6) == 0 {
			s := st("names")
			s.Names = []string{pick(g.r, []string{"n1", "n2", "new key", "q,r"}), pick(g.r, []string{"m1", "m2"})}
			s.Sp = spelling(g.r)
			p.Steps = append(p.Steps, s)
		} else {
			p.Steps = append(p.Steps, childStep(g.r, pick(g.r, []string{"n1", "n2", "new", "z", "a", "b", "n1", "new", "p,q", "u, v", "k[1]", "été", "x.y/z", "it's", `say "hi"`, `w\s`, "n:1", " n", "n'1"})))
		}
	}
	fixRoot(p)
	return p
}

// brokenPath: something that cannot be created.
func (g *Gen) brokenPath(doc *yaml.Node) *Path {
	p := g.missingPath(doc)
	s := st("idx")
	s.Subs = []Sub{{W: "i", I: 40}}
	if g.r.Intn(2) == 0 {
		s = st("filter")
		s.E = &Expr{F: "cmp", Op: "==", A: &Operand{O: "at", P: &Path{Steps: []*PStep{childStep(g.r, "name")}}}, B: &Operand{O: "lit", Y: "str", V: "nowhere"}}
	}
	i := 1 + g.r.Intn(len(p.Steps))
	p.Steps = append(p.Steps[:i:i], append([]*PStep{s}, p.Steps[i:]...)...)
	return p
}

func compatible(ps []*Path) bool {
	// no path is a prefix of another one as far as names go
	for i, a := range ps {
		for j, b := range ps {
			if i == j {
				continue
			}
			n := len(a.Steps)
			if len(b.Steps) < n {
				n = len(b.Steps)
			}
			pre := true
			for k := 0; k < n && pre; k++ {
				pre = overlap(names(a.Steps[k]), names(b.Steps[k]))
			}
			if pre && len(a.Steps) != len(b.Steps) {
				return false
			}
		}
	}
	return true
}

func names(s *PStep) []string {
	if s.Op == "names" {
		return s.Names
	}
	return []string{s.Name}
}

func overlap(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (g *Gen) conditionValue(doc *yaml.Node, p *Path) *yaml.Node {
	if t := targetOf(doc, p); t != nil && g.r.Intn(3) > 0 && !hasAliases(t) {
		return bare(t)
	}
	return g.value(1)
}

// several gives queries with several matches, and the value of one of them.
func (g *Gen) several(doc *yaml.Node, p *Path) ([]*Path, *yaml.Node) {
	t := targetOf(doc, p)
	if t == nil || hasAliases(t) {
		return nil, nil
	}
	var vs []*yaml.Node
	for i, c := range t.Content {
		if t.Kind == yaml.SequenceNode || i%2 == 1 {
			vs = append(vs, c)
		}
	}
	if len(vs) > 1 {
		q := *p
		q.Steps = append(append([]*PStep{}, p.Steps...), st("wild"))
		return []*Path{&q}, bare(vs[g.r.Intn(2)*g.r.Intn(len(vs))])
	}
	o := g.pathFor(doc)
	if u := targetOf(doc, o); u == nil || hasAliases(u) {
		return nil, nil
	}
	return []*Path{p, o}, bare(t)
}

func bare(n *yaml.Node) *yaml.Node {
	c := &yaml.Node{Kind: n.Kind, Tag: n.ShortTag(), Value: n.Value}
	for _, x := range n.Content {
		c.Content = append(c.Content, bare(x))
	}
	return c
}

// overlay makes an overlay for one of the documents.
func (g *Gen) overlay(docs []*yaml.Node, earlier []*Ov) *Ov {
	r := g.r
	o := &Ov{Action: pick(r, g.p.Actions)}
	doc := &yaml.Node{Kind: yaml.DocumentNode}
	if len(docs) > 0 {
		doc = docs[r.Intn(len(docs))]
	}
	missing := g.pct(g.p.Missing)
	n := 1
	if r.Intn(5) == 0 || g.p.Queries && r.Intn(3) == 0 {
		n = 2
		if r.Intn(3) == 0 {
			n = 3 + r.Intn(2)
		}
	}
	for i := 0; i < n; i++ {
		switch {
		case missing && r.Intn(3) > 0:
			o.Query = append(o.Query, g.missingPath(doc))
		case missing:
			o.Query = append(o.Query, g.brokenPath(doc))
		case len(earlier) > 0 && g.pct(g.p.Repeat):
			e := pick(r, earlier)
			if len(e.Query) > 0 {
				o.Query = append(o.Query, pick(r, e.Query))
			} else {
				o.Query = append(o.Query, g.pathFor(doc))
			}
		default:
			o.Query = append(o.Query, g.pathFor(doc))
		}
	}
	if n > 2 && !missing && r.Intn(2) == 0 {
		// one of them finds nothing
		i := 1 + r.Intn(n-2)
		q := append([]*Path{}, o.Query...)
		q[i] = g.missingPath(doc)
		if compatible(q) {
			o.Query = q
		}
	}
	if !missing && g.pct(g.p.Roots) {
		if r.Intn(3) > 0 {
			o.Action = "delete"
		}
		o.Query = []*Path{{Root: true, Steps: []*PStep{}}}
	}
	if len(earlier) > 0 && g.pct(g.p.Deeper) {
		if q := g.deeper(pick(r, earlier)); q != nil {
			o.Query = []*Path{q}
		}
	}
	if missing && !compatible(o.Query) {
		o.Query = o.Query[:1]
	}
	var target *yaml.Node
	for _, q := range o.Query {
		if t := targetOf(doc, q); t != nil {
			target = t
		}
	}
	if g.pct(g.p.Fit) || (o.Action == "combine" && !g.pct(g.p.FailCombine)) {
		o.Value = g.fitting(target, o.Action)
		if o.Action == "combine" && target != nil && target.Kind != yaml.ScalarNode && !g.pct(g.p.FailCombine) {
			o.Action = "merge"
		}
	} else {
		o.Value = g.value(2)
	}
	if g.p.Text && o.Value.Kind != yaml.ScalarNode && len(o.Value.Content) == 0 && selectsKeys(o.Query) {
		o.Value = g.scalar() // the library writes an empty map with a line comment as a key in a way nobody can read
	}
	if g.p.Lists == 0 {
		dropLists(o.Value)
	}
	if g.p.Markers > 0 {
		g.mark(o.Value, o.Action)
	}
	if g.p.OvComments > 0 {
		g.addComments(o.Value, g.p.OvComments, func() string {
			if g.pct(g.p.Markers) {
				return g.markerText()
			}
			return pick(g.r, []string{"added", "by overlay", "new: comment", "#2"})
		}, true)
	}
	if g.pct(g.p.Aliases) && o.Action != "combine" && g.p.Markers == 0 && !g.p.Text {
		g.addAliases(o.Value)
	}
	m := mapNode()
	add := func(k string, v *yaml.Node) { m.Content = append(m.Content, strNode(k), v) }
	if r.Intn(2) == 0 {
		add("name", strNode(fmt.Sprintf("overlay %d", r.Intn(100))))
	}
	add("query", g.queryNode(o.Query))
	if o.Action != "merge" || r.Intn(3) > 0 {
		a := o.Action
		if r.Intn(10) == 0 {
			a = strings.ToUpper(a[:1]) + a[1:]
		}
		add("action", strNode(a))
	}
	if o.Action == "delete" && r.Intn(3) > 0 || g.pct(g.p.NoValue) && o.Action != "combine" {
		o.Value = nil
	} else {
		add("value", o.Value)
	}
	if g.pct(g.p.DocIndex) {
		s, most := seqNode(), 4
		if g.big == "documents" {
			most = 14
		}
		for i := r.Intn(3); i >= 0; i-- {
			s.Content = append(s.Content, rawNode("!!int", strconv.Itoa(r.Intn(most))))
		}
		if r.Intn(10) == 0 {
			s.Content = nil
		}
		add("documentIndex", s)
	}
	if g.pct(g.p.DocQuery) {
		add("documentQuery", g.docQuery(docs))
	}
	if g.pct(g.p.OnMissing) || missing && r.Intn(2) == 0 {
		om := mapNode(strNode("action"), strNode(pick(r, []string{"inject", "inject", "ignore", "Inject", "default"})))
		if r.Intn(3) == 0 {
			ips := []*Path{}
			for i := r.Intn(2); i >= 0; i-- {
				if r.Intn(12) == 0 {
					ips = append(ips, g.brokenPath(doc))
				} else {
					ips = append(ips, g.missingPath(doc))
				}
			}
			if !compatible(ips) {
				ips = ips[:1]
			}
			o.Query = append([]*Path{}, o.Query...)
			om.Content = append(om.Content, strNode("injectPath"), g.queryNode(ips))
			g.note(ips...)
		}
		add("onMissing", om)
	}
	g.note(o.Query...)
	o.Node = m
	return o
}

// deeper is a query for a part of what an earlier overlay inserts.
func selectsKeys(ps []*Path) bool {
	for _, p := range ps {
		for _, s := range p.Steps {
			if strings.HasSuffix(s.Op, "prop") || s.Op == "props" {
				return true
			}
		}
	}
	return false
}

func (g *Gen) deeper(e *Ov) *Path {
	if len(e.Query) == 0 || e.Value == nil {
		return nil
	}
	q := pick(g.r, e.Query)
	if l := len(q.Steps); l > 0 {
		switch q.Steps[l-1].Op {
		case "prop", "props", "wildprop", "descthen", "filter", "rfilter":
			return nil
		}
	}
	p := &Path{Root: q.Root, Steps: append([]*PStep{}, q.Steps...)}
	n := e.Value
	for d := 1 + g.r.Intn(2); d > 0; d-- {
		switch {
		case n.Kind == yaml.MappingNode && len(n.Content) > 0:
			i := 2 * g.r.Intn(len(n.Content)/2)
			if n.Content[i].Kind != yaml.ScalarNode || badName(n.Content[i].Value) {
				return p
			}
			p.Steps = append(p.Steps, childStep(g.r, n.Content[i].Value))
			n = n.Content[i+1]
		case n.Kind == yaml.SequenceNode && len(n.Content) > 0:
			s := st("idx")
			i := g.r.Intn(len(n.Content))
			s.Subs = []Sub{{W: "i", I: i - len(n.Content)}}
			p.Steps = append(p.Steps, s)
			n = n.Content[i]
		default:
			return p
		}
	}
	fixRoot(p)
	return p
}

func (g *Gen) note(ps ...*Path) {
	for _, p := range ps {
		g.qt[p.Text()] = p
	}
}

func dropLists(n *yaml.Node) {
	for i, c := range n.Content {
		if c.Kind == yaml.SequenceNode {
			n.Content[i] = strNode("was a list")
		} else {
			dropLists(c)
		}
	}
	if n.Kind == yaml.SequenceNode {
		*n = *strNode("was a list")
	}
}

func (g *Gen) docQuery(docs []*yaml.Node) *yaml.Node {
	groups := seqNode()
	for i := g.r.Intn(2); i >= 0; i-- {
		conds := seqNode()
		for j := g.r.Intn(2); j >= 0; j-- {
			doc := &yaml.Node{Kind: yaml.DocumentNode}
			if len(docs) > 0 {
				doc = docs[g.r.Intn(len(docs))]
			}
			p := g.pathFor(doc)
			if g.big == "levels" && g.r.Intn(2) == 0 {
				p = &Path{Root: true, Steps: []*PStep{}} // the condition sees all the levels
			}
			g.note(p)
			c := mapNode(strNode("query"), g.queryNode([]*Path{p}))
			if qs, v := g.several(doc, p); v != nil && g.r.Intn(3) == 0 {
				g.note(qs...)
				c = mapNode(strNode("query"), g.queryNode(qs), strNode("value"), v)
			} else if g.r.Intn(3) > 0 {
				c.Content = append(c.Content, strNode("value"), g.conditionValue(doc, p))
			}
			conds.Content = append(conds.Content, c)
		}
		gr := mapNode(strNode("conditions"), conds)
		if g.r.Intn(20) == 0 {
			gr.Content = nil
		}
		groups.Content = append(groups.Content, gr)
	}
	return groups
}
