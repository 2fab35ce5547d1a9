package main

import (
	"encoding/json"
	"path"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// rootMark stands for the sandbox directory of a scenario.
const rootMark = "@ROOT@"

type SFile struct {
	Path string `json:"path"` // below the sandbox
	Text string `json:"text"`
}

type KV struct {
	N string `json:"n"`
	V string `json:"v"`
}

type SConfig struct {
	Where string `json:"where"` // flag, env, cwd, home
	Path  string `json:"path"`
	Vals  []KV   `json:"vals"`
	Bad   bool   `json:"bad"` // it is missing or not YAML
}

// QText is what is known about a text that may be used as a path.
type QText struct {
	T  string `json:"t"`
	OK bool   `json:"ok"`
	P  any    `json:"p"`
}

// Scenario is one run of yot.
type Scenario struct {
	ID       string    `json:"id"`
	RawArgs  []string  `json:"-"`   // further arguments
	Cwd      string    `json:"cwd"` // below the sandbox
	Files    []SFile   `json:"files"`
	Dirs     []string  `json:"dirs"`
	Links    []string  `json:"links,omitempty"` // files and directories that are symbolic links
	Stdin    string    `json:"stdin"`
	HasInstr bool      `json:"hasInstr"`
	InstrArg string    `json:"instrArg"` // as given with -i
	Instr    string    `json:"instr"`    // instructions text as yot takes it
	InstrDir string    `json:"instrDir"` // below the sandbox
	Values   []string  `json:"values"`   // arguments of -f
	QT       []QText   `json:"qt"`
	AdPath   string    `json:"adPath"`
	AdQs     []string  `json:"adQs"`
	AdAction string    `json:"adAction"`
	AdValue  string    `json:"adValue"`
	Flags    []KV      `json:"flags"`
	Env      []KV      `json:"env"`
	Configs  []SConfig `json:"configs"`
	CLI      bool      `json:"cli"`
	Extra    []string  `json:"extra"`  // further arguments
	Text     bool      `json:"text"`   // compare texts
	Broken   bool      `json:"broken"` // the instructions cannot be read at all
	Pair     string    `json:"pair,omitempty"`
	EnvCmd   bool      `json:"envCmd,omitempty"` // `yot env` instead of a run
	EnvArg   string    `json:"envArg,omitempty"` // the setting that is asked for
	Full     bool      `json:"full,omitempty"`   // standard output is on a full device
	Other    bool      `json:"other,omitempty"`  // the other names of the flags, the short or the long ones
	Levels   bool      `json:"levels,omitempty"` // compare the levels of messages
	Apart    bool      `json:"apart,omitempty"`  // flags and their values as separate arguments, or the flag alone
	Note     string    `json:"note,omitempty"`
}

var flagNames = map[string]string{"outputDirectory": "output-directory", "stdout": "stdout", "indentLevel": "indent-level", "outputStyle": "output-style",
	"removeComments": "remove-comments", "logLevel": "log-level", "defaultOnMissingAction": "default-on-missing-action"}
var shortNames = map[string]string{"outputDirectory": "-o", "stdout": "-s", "indentLevel": "-I", "outputStyle": "-S", "logLevel": "-v"}
var envNames = map[string]string{"outputDirectory": "YOT_OUTPUT_DIRECTORY", "stdout": "YOT_STDOUT", "indentLevel": "YOT_INDENT_LEVEL", "outputStyle": "YOT_OUTPUT_STYLE",
	"removeComments": "YOT_REMOVE_COMMENTS", "logLevel": "YOT_LOG_LEVEL", "defaultOnMissingAction": "YOT_DEFAULT_ON_MISSING_ACTION", "configFile": "YOT_CONFIG_FILE"}

// in puts the sandbox directory into a text.
func in(root, s string) string { return strings.ReplaceAll(s, rootMark, root) }

func abs(root, p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(root, p)
}

// Argv is the command line after the program name.
func (s *Scenario) Argv(root string) []string {
	a := append([]string{}, s.RawArgs...)
	if s.EnvCmd {
		a = append(a, "env")
		if s.EnvArg != "" {
			a = append(a, envNames[s.EnvArg])
		}
	}
	name := func(short, long string) string {
		if s.Other {
			return long
		}
		return short
	}
	if s.HasInstr {
		a = append(a, name("-i", "--instructions"), in(root, s.InstrArg))
	}
	for _, v := range s.Values {
		a = append(a, name("-f", "--values-file"), in(root, v))
	}
	if s.AdPath != "" {
		a = append(a, name("-p", "--path"), in(root, s.AdPath))
	}
	for _, q := range s.AdQs {
		a = append(a, name("-q", "--query"), q)
	}
	if s.AdAction != "" {
		a = append(a, name("-a", "--action"), s.AdAction)
	}
	if s.AdValue != "" {
		a = append(a, name("-x", "--value"), s.AdValue)
	}
	for _, f := range s.Flags {
		n := "--" + flagNames[f.N]
		if short := shortNames[f.N]; s.Other && short != "" {
			n = short
		}
		boolean := f.N == "stdout" || f.N == "removeComments"
		switch {
		case s.Apart && (boolean && f.V == "true" || f.N == "logLevel" && f.V == "debug"):
			a = append(a, n)
		case s.Apart && !boolean && f.N != "logLevel":
			a = append(a, n, in(root, f.V))
		default:
			a = append(a, n+"="+in(root, f.V))
		}
	}
	for _, c := range s.Configs {
		if c.Where == "flag" {
			a = append(a, "--config", in(root, c.Path))
		}
	}
	for _, x := range s.Extra {
		a = append(a, in(root, x))
	}
	return a
}

func (s *Scenario) Environ(root string) []string {
	e := []string{"HOME=" + root + "/home", "PATH=/usr/bin:/bin", "GORACE=halt_on_error=0 exitcode=66"}
	for _, kv := range s.Env {
		e = append(e, envNames[kv.N]+"="+in(root, kv.V))
	}
	for _, c := range s.Configs {
		if c.Where == "env" {
			e = append(e, "YOT_CONFIG_FILE="+in(root, c.Path))
		}
	}
	return e
}

type jsonFile struct {
	Path string  `json:"path"`
	Docs []*Node `json:"docs"`
	Bad  bool    `json:"bad"`
}

func parsed(text string) ([]*Node, bool) {
	docs, err := parseDocs(text)
	if err != nil {
		return []*Node{}, true
	}
	return toTrees(docs), false
}

// ForSpec is the scenario as the specification takes it.
func (s *Scenario) ForSpec(root string) map[string]any {
	fs := []jsonFile{}
	for _, f := range s.Files {
		docs, bad := parsed(in(root, f.Text))
		fs = append(fs, jsonFile{abs(root, f.Path), docs, bad})
	}
	dirs := []string{}
	for _, d := range append([]string{s.Cwd, "home"}, s.Dirs...) {
		dirs = append(dirs, abs(root, d))
	}
	sdocs, sbad := parsed(in(root, s.Stdin))
	instr := map[string]any{"has": s.HasInstr, "bad": s.Broken, "docs": []*Node{}, "dir": abs(root, s.InstrDir)}
	if s.HasInstr && !s.Broken {
		// yot reads the first document only
		var y yaml.Node
		err := decodeFirst(in(root, s.Instr), &y)
		switch {
		case err != nil && err.Error() == "EOF":
		case err != nil:
			instr["bad"] = true
		default:
			instr["docs"] = toTrees([]*yaml.Node{&y})
		}
	}
	cli := s.CLI
	known := map[string]QText{}
	for _, q := range s.QT {
		known[q.T] = q
	}
	qs := []any{}
	for _, t := range s.AdQs {
		if q := known[t]; q.OK {
			qs = append(qs, q.P)
		} else {
			cli = false
		}
	}
	act := strings.ToLower(s.AdAction)
	switch act {
	case "":
		act = "merge"
	case "merge", "replace", "delete", "combine":
	default:
		cli = false
	}
	val := noNode()
	if s.AdValue != "" && len(s.AdQs) > 0 {
		docs, err := parseDocs(s.AdValue)
		switch {
		case err != nil && len(docs) == 0:
			cli = false
		case len(docs) == 0:
		default:
			t := toTrees(docs[:1])[0]
			if len(t.C) > 0 {
				val = t.C[0]
			} else {
				val = t
			}
		}
	}
	qt := []any{}
	for _, q := range s.QT {
		p := q.P
		if p == nil {
			p = &Path{Steps: []*PStep{}}
		}
		qt = append(qt, map[string]any{"t": q.T, "ok": q.OK, "p": p})
	}
	kvs := func(l []KV) []KV {
		r := []KV{}
		for _, x := range l {
			r = append(r, KV{x.N, in(root, x.V)})
		}
		return r
	}
	cfgs := []any{}
	for _, c := range s.Configs {
		cfgs = append(cfgs, map[string]any{"where": c.Where, "vals": kvs(c.Vals), "path": in(root, c.Path), "bad": c.Bad})
	}
	return map[string]any{
		"cmd": map[bool]string{false: "run", true: "env"}[s.EnvCmd], "asked": s.EnvArg, "full": s.Full,
		"id": s.ID, "cwd": abs(root, s.Cwd), "cli": cli, "instr": instr, "qt": qt, "fs": fs, "dirs": dirs,
		"stdin":  map[string]any{"docs": sdocs, "bad": sbad},
		"adpath": in(root, s.AdPath),
		"adov":   map[string]any{"has": len(s.AdQs) > 0, "qs": qs, "action": act, "value": val},
		"flags":  kvs(s.Flags), "env": kvs(s.Env), "configs": cfgs,
	}
}

func (s *Scenario) SpecJSON(root string) string {
	b, err := json.Marshal(s.ForSpec(root))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// configText writes a config file.
func configText(vals []KV) string {
	m := mapNode()
	for _, v := range vals {
		var n *yaml.Node
		switch v.N {
		case "stdout", "removeComments":
			n = rawNode("!!bool", v.V)
		case "indentLevel":
			n = &yaml.Node{Kind: yaml.ScalarNode, Value: v.V}
		case "outputStyle":
			n = seqNode()
			for _, x := range strings.Split(v.V, ",") {
				y := strNode(x)
				if x == "n" { // the reader of config files takes it for false
					y.Style = yaml.DoubleQuotedStyle
				}
				n.Content = append(n.Content, y)
			}
			if len(n.Content) == 1 {
				n = n.Content[0]
			}
		default:
			n = strNode(v.V)
		}
		m.Content = append(m.Content, strNode(v.N), n)
	}
	return encode([]*yaml.Node{m}, 2)
}

// ---- random scenarios ----

var dirPool = []string{"ins", "ins/sub", "ins/sub/deep", "ins/subx", "data", "data/a", "data/a.d", "w", "ins/.hid", "data/.d.d"}
var namePool = []string{"f.yaml", "g.yaml", "h.yml", "a.yaml", "f-1.yaml", "B.yaml", "conf.prod.yaml", ".h.yaml", "F.YAML", ".yml"}

func (g *Gen) flagSafe(p *Path) bool {
	var t string
	return yaml.Unmarshal([]byte(p.Text()), &t) == nil && t == p.Text() && !strings.HasPrefix(t, "-")
}

func (g *Gen) settingValue(n string) string {
	r := g.r
	switch n {
	case "outputDirectory":
		return pick(r, []string{"out1", "./o2/x", rootMark + "/absout", "../o3", "o4/"})
	case "stdout", "removeComments":
		return pick(r, []string{"true", "false", "true", "1", "F"})
	case "indentLevel":
		return pick(r, []string{"0", "1", "2", "3", "4", "6", "8"})
	case "outputStyle":
		return g.styleText()
	case "logLevel":
		return pick(r, []string{"error", "critical", "info", "notice", "debug", "warning", "DEBUG"})
	}
	return pick(r, []string{"inject", "ignore", "Inject"})
}

var styleTexts = [][]string{{"normal", "n", "Normal"}, {"tagged", "tag", "t"}, {"doubleQuoted", "double", "dq", "DoubleQuote"},
	{"singleQuoted", "single", "sq", "singleQuote"}, {"literal", "l"}, {"folded", "fold", "fo"}, {"flow", "fl", "FLOW"}}

func (g *Gen) styleText() string {
	n := 1 + g.r.Intn(2)
	t := []string{}
	for i := 0; i < n; i++ {
		t = append(t, pick(g.r, pick(g.r, styleTexts)))
	}
	return strings.Join(t, ",")
}

var settingNames = []string{"outputDirectory", "stdout", "indentLevel", "outputStyle", "removeComments", "logLevel", "defaultOnMissingAction"}

// addSettings gives settings in various places.
func (g *Gen) addSettings(s *Scenario, pct int, only ...string) {
	names := settingNames
	if len(only) > 0 {
		names = only
	}
	places := map[string][]KV{}
	for _, n := range names {
		for _, w := range []string{"flags", "env", "flag", "envc", "cwd", "home"} {
			if g.pct(pct) {
				v := g.settingValue(n)
				if w != "flags" && w != "env" && (n == "stdout" || n == "removeComments") {
					v = pick(g.r, []string{"true", "false"})
				}
				places[w] = append(places[w], KV{n, v})
			}
		}
	}
	s.Flags = append(s.Flags, places["flags"]...)
	s.Env = append(s.Env, places["env"]...)
	for _, w := range []string{"flag", "envc", "cwd", "home"} {
		if len(places[w]) == 0 {
			continue
		}
		g.addConfig(s, strings.TrimSuffix(w, "c"), places[w])
	}
}

func (g *Gen) addConfig(s *Scenario, where string, vals []KV) {
	c := SConfig{Where: where, Vals: vals}
	file := map[string]string{"flag": "cfg/one.yaml", "env": "cfg/two.yaml", "cwd": path.Join(s.Cwd, "yot.config"), "home": "home/.yot/yot.config"}[where]
	c.Path = rootMark + "/" + file
	s.Configs = append(s.Configs, c)
	text := configText(vals)
	if g.pct(4) {
		c.Bad, s.Configs[len(s.Configs)-1].Bad = true, true
		if (where == "flag" || where == "env") && g.r.Intn(2) == 0 {
			return
		}
		text += pick(g.r, notYAML)
	}
	s.Files = append(s.Files, SFile{file, text})
}

// relTo gives a path as it could be written in a place.
func (g *Gen) relTo(dir, p string) string {
	if g.r.Intn(3) == 0 {
		return rootMark + "/" + p
	}
	up := strings.Count(path.Clean(dir), "/") + 1
	if d := path.Clean(dir) + "/"; strings.HasPrefix(p+"/", d) && g.r.Intn(4) > 0 {
		if p == path.Clean(dir) {
			return "."
		}
		return strings.TrimPrefix(p, d)
	}
	return strings.Repeat("../", up) + p
}

// untidy writes a path in another way.
func (g *Gen) untidy(p string) string {
	switch g.r.Intn(8) {
	case 0:
		return "./" + p
	case 1:
		if i := strings.LastIndex(p, "/"); i > 0 {
			return p[:i] + "/" + p[i:]
		}
	case 2:
		if i := strings.LastIndex(p, "/"); i > 0 {
			return p[:i] + "/." + p[i:]
		}
	case 3:
		if i := strings.LastIndex(p, "/"); i > 0 {
			return p[:i] + "/nope/.." + p[i:]
		}
	}
	return p
}

func (g *Gen) outputPath(isDir bool) string {
	o := []string{"placed", "placed/more", rootMark + "/elsewhere/dir", "up/../dir2"}
	if !isDir {
		o = append(o, "one.yaml", "placed/two.yml", rootMark+"/elsewhere/three.yaml", "x/../four.yaml")
	}
	return pick(g.r, o)
}

func (g *Gen) scenario(id string) *Scenario {
	r := g.r
	g.qt = map[string]*Path{}
	s := &Scenario{ID: id, CLI: true, Cwd: pick(r, []string{"w", "w", "ins", "w/x"}), InstrDir: "ins", Text: g.p.Text,
		Files: []SFile{}, Dirs: []string{}, QT: []QText{}}
	paths := g.pct(g.p.Paths)
	// input files
	g.odd = g.pct(g.p.Odd)
	g.big = ""
	if !g.p.Text && g.pct(g.p.Big) {
		g.big = pick(r, []string{"keys", "items", "items", "levels", "documents", "documents", "files", "overlays"})
		if paths && r.Intn(2) == 0 {
			g.big = "files"
		}
	}
	g.feet = g.p.Comments > 0 && r.Intn(3) == 0
	n := 1 + r.Intn(g.p.MaxFiles)
	if n < g.p.MinFiles {
		n = g.p.MinFiles
	}
	docsOf := map[string][]*yaml.Node{}
	var inputs []string
	for i := 0; i < n; i++ {
		p := "ins/" + []string{"f.yaml", "sub/g.yaml", "h.yml", "sub/k.yaml", "other/m.yaml", "n.yaml"}[i%6]
		if paths {
			p = pick(r, dirPool) + "/" + pick(r, namePool)
		}
		if docsOf[p] != nil {
			continue
		}
		t := g.fileText()
		if g.pct(g.p.BadInput) {
			t = pick(r, append([]string{"ok: 1\n---\nbad: {\n"}, notYAML...))
			docsOf[p] = []*yaml.Node{}
		} else {
			docsOf[p], _ = parseDocs(t)
			if docsOf[p] == nil {
				docsOf[p] = []*yaml.Node{}
			}
		}
		inputs = append(inputs, p)
		s.Files = append(s.Files, SFile{p, t})
	}
	if paths && r.Intn(3) == 0 {
		name := pick(r, []string{"notes.txt", "f-yaml", "nyml", "x.yaml.bak", "yaml", "y.yamlx", "z.YML", "u.json", "v.yaml~"})
		s.Files = append(s.Files, SFile{pick(r, dirPool) + "/" + name, "not: [yaml\n"})
	}
	if paths && r.Intn(6) == 0 {
		s.Dirs = append(s.Dirs, pick(r, dirPool)+"/empty.yaml")
	}
	if paths && r.Intn(4) == 0 {
		g.addLinks(s, inputs)
	}
	bigDir := ""
	if g.big == "files" {
		dir := pick(r, []string{"ins/all", "data/all"})
		if r.Intn(2) == 0 {
			bigDir = dir
		}
		for i := 10 + r.Intn(8); i > 0; i-- {
			p := dir + "/" + strconv.Itoa(i) + ".yaml"
			t := encode([]*yaml.Node{g.mapping(1)}, 2)
			docsOf[p], _ = parseDocs(t)
			s.Files = append(s.Files, SFile{p, t})
			inputs = append(inputs, p)
		}
	}
	stdinDocs := []*yaml.Node{}
	useStdin := g.pct(g.p.Stdin)
	if useStdin {
		s.Stdin = g.fileText()
		stdinDocs, _ = parseDocs(s.Stdin)
	}
	var all []*yaml.Node
	for _, p := range inputs {
		all = append(all, docsOf[p]...)
	}
	all = append(all, stdinDocs...)

	adhoc := g.pct(g.p.AdHoc)
	s.HasInstr = !adhoc || g.pct(g.p.AdInstr)
	s.InstrArg = rootMark + "/ins/instr.yaml"
	if r.Intn(3) == 0 {
		s.InstrArg = strings.Repeat("../", strings.Count(s.Cwd, "/")+1) + "ins/instr.yaml"
	}
	s.Other = r.Intn(4) == 0
	s.Apart = r.Intn(4) == 0
	fromStdin := s.HasInstr && !useStdin && g.pct(g.p.InstrStdin)
	if fromStdin {
		s.InstrArg, s.InstrDir = "-", s.Cwd
	}
	many := func(what string, n int) int {
		if g.big == what {
			return 10 + r.Intn(4)
		}
		return n
	}
	var earlier []*Ov
	overlay := func(docs []*yaml.Node) *yaml.Node {
		o := g.overlay(docs, earlier)
		earlier = append(earlier, o)
		return o.Node
	}
	if s.HasInstr {
		root := mapNode()
		common := seqNode()
		for i := r.Intn(2); i >= 0; i-- {
			if g.pct(g.p.Common) {
				common.Content = append(common.Content, overlay(all))
			}
		}
		files := seqNode()
		entry := func(p string, docs []*yaml.Node, isDir bool) {
			e := mapNode()
			add := func(k string, v *yaml.Node) { e.Content = append(e.Content, strNode(k), v) }
			if r.Intn(3) == 0 {
				add("name", strNode("entry"))
			}
			w := p
			if p != "-" {
				w = g.relTo(s.InstrDir, p)
				if paths {
					w = g.untidy(w)
				}
			}
			add("path", strNode(w))
			if (paths && r.Intn(3) == 0) || p == "-" {
				add("outputPath", strNode(g.outputPath(isDir)))
			}
			ovs := seqNode()
			for i := many("overlays", r.Intn(g.p.MaxOvs+1)); i > 0; i-- {
				ovs.Content = append(ovs.Content, overlay(docs))
			}
			if len(ovs.Content) > 0 {
				add("overlays", ovs)
			}
			if g.pct(g.p.DocOvs) {
				ds := seqNode()
				lastDoc := 0
				for i := r.Intn(2); i >= 0; i-- {
					k := r.Intn(len(docs) + 2)
					if len(ds.Content) > 0 && g.pct(g.p.Dup) {
						k = lastDoc
					}
					lastDoc = k
					dd := docs
					if k < len(docs) {
						dd = docs[k : k+1]
					}
					dv := seqNode(overlay(dd))
					if r.Intn(3) == 0 {
						dv.Content = append(dv.Content, overlay(dd))
					}
					d := mapNode(strNode("path"), rawNode("!!int", strconv.Itoa(k)), strNode("overlays"), dv)
					if r.Intn(5) == 0 {
						d.Content = d.Content[2:]
					}
					ds.Content = append(ds.Content, d)
				}
				add("documents", ds)
			}
			files.Content = append(files.Content, e)
		}
		if bigDir != "" {
			entry(bigDir, docsOf[inputs[len(inputs)-1]], true)
		}
		for _, p := range inputs {
			if adhoc && r.Intn(2) == 0 || bigDir != "" && path.Dir(p) == bigDir {
				continue
			}
			if paths && r.Intn(4) == 0 {
				entry(path.Dir(p), docsOf[p], true)
			} else {
				entry(p, docsOf[p], false)
			}
			if paths && r.Intn(3) == 0 || g.pct(g.p.Many) {
				q := pick(r, inputs)
				if r.Intn(3) == 0 {
					entry(path.Dir(q), docsOf[q], true)
				} else {
					entry(q, docsOf[q], false)
				}
			}
		}
		if useStdin && !adhoc {
			entry("-", stdinDocs, false)
			if r.Intn(4) == 0 {
				entry("-", stdinDocs, false)
			}
		}
		r.Shuffle(len(files.Content), func(i, j int) { files.Content[i], files.Content[j] = files.Content[j], files.Content[i] })
		if len(common.Content) > 0 {
			root.Content = append(root.Content, strNode("commonOverlays"), common)
		}
		if len(files.Content) > 0 || r.Intn(2) == 0 {
			root.Content = append(root.Content, strNode("yamlFiles"), files)
		}
		if g.pct(g.p.Break) {
			g.breakInstr(root, s)
		}
		if !adhoc {
			g.short(root)
		}
		s.Instr = encode([]*yaml.Node{root}, 2)
		if !adhoc && g.p.InstrStdin > 0 {
			s.Instr = g.dressed(s.Instr)
		}
		if g.pct(g.p.Break) && r.Intn(20) == 0 {
			t := pick(r, notYAML)
			s.Instr = pick(r, []string{t, s.Instr + t, t + s.Instr, s.Instr + "---\n" + t, s.Instr[:r.Intn(len(s.Instr))]})
		}
		if g.pct(3) && strings.HasSuffix(s.Instr, "\n") {
			s.Instr += "---\nyamlFiles:\n  - path: another.yaml\n" // not looked at
		}
		if fromStdin {
			s.Stdin = s.Instr
		} else {
			s.Files = append(s.Files, SFile{"ins/instr.yaml", s.Instr})
		}
	}
	if adhoc {
		switch {
		case useStdin:
			s.AdPath = "-"
		case r.Intn(10) == 0:
			s.AdPath = "nowhere.yaml"
		default:
			p := pick(r, inputs)
			base := s.Cwd
			if s.HasInstr {
				base = s.InstrDir
			}
			if r.Intn(3) == 0 {
				p = path.Dir(p)
			}
			s.AdPath = g.relTo(base, p)
			if paths {
				s.AdPath = g.untidy(s.AdPath)
			}
		}
		o := g.overlay(all, earlier)
		for _, q := range o.Query {
			if g.flagSafe(q) {
				s.AdQs = append(s.AdQs, q.Text())
			}
		}
		if o.Action != "merge" || r.Intn(2) == 0 {
			s.AdAction = o.Action
		}
		if o.Value != nil {
			s.AdValue = encode([]*yaml.Node{o.Value}, 2)
			if r.Intn(10) == 0 {
				s.AdValue = ""
			} else if r.Intn(50) == 0 {
				s.AdValue = pick(r, notYAML)
			}
		}
	}
	if g.pct(g.p.Stdout) {
		s.Flags = append(s.Flags, KV{"stdout", "true"})
	}
	if g.pct(g.p.Settings) {
		s.Flags = nil
		g.addSettings(s, 12)
	}
	setting := func(pct int, name, v string) {
		if !g.pct(pct) {
			return
		}
		for _, f := range s.Flags {
			if f.N == name {
				return
			}
		}
		if r.Intn(3) == 0 {
			s.Env = append(s.Env, KV{name, v})
		} else {
			s.Flags = append(s.Flags, KV{name, v})
		}
	}
	setting(g.p.Settings1, "outputDirectory", g.settingValue("outputDirectory"))
	setting(g.p.DefaultOM, "defaultOnMissingAction", pick(r, []string{"inject", "inject", "ignore", "INJECT"}))
	setting(g.p.LogLevel, "logLevel", pick(r, []string{"debug", "info", "notice", "debug", "critical"}))
	setting(g.p.RemoveComments, "removeComments", "true")
	setting(g.p.Style*2/3, "outputStyle", g.styleText())
	setting(g.p.Style*2/3, "indentLevel", g.settingValue("indentLevel"))
	if g.pct(g.p.BadSetting) {
		v := pick(r, []KV{{"indentLevel", "-1"}, {"indentLevel", "x"}, {"indentLevel", "2.5"}, {"outputStyle", "bogus"}, {"outputStyle", "dq,nope"}, {"logLevel", "loud"}, {"stdout", "maybe"}, {"defaultOnMissingAction", "bogus"}})
		var l []KV
		for _, f := range s.Flags {
			if f.N != v.N {
				l = append(l, f)
			}
		}
		s.Flags = l
		setting(100, v.N, v.V)
	}
	blocked := g.pct(g.p.Blocked)
	if blocked {
		// a file is where a directory would have to be
		s.Files = append(s.Files, SFile{path.Join(s.Cwd, "output"), "not: a directory\n"})
	} else if blocked = g.pct(g.p.Blocked); blocked {
		// directories are where files would have to be
		for _, f := range []string{"f.yaml", "sub/g.yaml", "h.yml", "sub/k.yaml", "other/m.yaml", "n.yaml"} {
			if r.Intn(4) == 0 {
				s.Dirs = append(s.Dirs, path.Join(s.Cwd, "output", f))
			}
		}
	}
	if !blocked && g.pct(g.p.Stale) {
		for _, f := range s.Files {
			if r.Intn(2) == 0 && (strings.HasSuffix(f.Path, ".yaml") || strings.HasSuffix(f.Path, ".yml")) {
				rel := f.Path[strings.Index(f.Path, "/")+1:]
				if t := path.Join(s.Cwd, "output", rel); t != f.Path {
					s.Files = append(s.Files, SFile{t, "# of an earlier run\nold: [" + strings.Repeat("1, ", 200) + "2]\n"})
				}
			}
		}
	}
	if g.pct(g.p.EnvCmd) {
		s.EnvCmd = true
		s.HasInstr, s.AdPath, s.AdQs, s.AdAction, s.AdValue, s.Stdin, s.Flags = false, "", nil, "", "", "", nil
		var cs []SConfig
		for _, c := range s.Configs {
			if c.Where != "flag" {
				cs = append(cs, c)
			}
		}
		s.Configs = cs
		if r.Intn(3) == 0 {
			s.EnvArg = pick(r, []string{"configFile", "defaultOnMissingAction", "indentLevel", "logLevel", "outputDirectory", "outputStyle", "removeComments", "stdout"})
		}
	}
	s.Levels = g.p.Levels
	s.Full = !s.EnvCmd && g.pct(g.p.Full)
	g.finish(s)
	return s
}

// addLinks makes symbolic links of some of the inputs, or of a directory of inputs. Links to directories are not put below
// directories that are inputs: whether they are followed there is not said.
func (g *Gen) addLinks(s *Scenario, inputs []string) {
	if d := path.Dir(pick(g.r, inputs)); g.r.Intn(2) == 0 && strings.HasPrefix(d, "data") {
		below := false
		for _, p := range inputs {
			below = below || strings.HasPrefix(d, path.Dir(p)+"/")
		}
		if !below {
			s.Links = append(s.Links, d)
			return
		}
	}
	for _, p := range inputs {
		if g.r.Intn(2) == 0 {
			s.Links = append(s.Links, p)
		}
	}
}

func (g *Gen) finish(s *Scenario) {
	var ts []string
	for t := range g.qt {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	have := map[string]bool{}
	for _, q := range s.QT {
		have[q.T] = true
	}
	for _, t := range ts {
		if !have[t] {
			s.QT = append(s.QT, QText{t, true, g.qt[t]})
		}
	}
}

var knownTexts = []QText{
	{"", false, nil}, {"x", true, "x"}, {"$", true, ""}, {"$.a[", false, nil}, {"a b", true, "a b"},
}

// notYAML: texts that no reader accepts; the library panics on the last one.
var notYAML = []string{"a: [1\n", "a: b: c\n", "- x\nb: 1\n", "a: *nope\n", "\t- x\n", "\"open\n", "@x\n", "- a\n# c\n-\n# d\n{b: x}\n"}

// breakInstr changes something in the instructions.
func (g *Gen) breakInstr(root *yaml.Node, s *Scenario) {
	r := g.r
	type slot struct {
		par *yaml.Node
		i   int
	}
	var slots []slot
	var rec func(n *yaml.Node, inValue bool)
	rec = func(n *yaml.Node, inValue bool) {
		switch n.Kind {
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				if !inValue {
					slots = append(slots, slot{n, i + 1})
				}
				rec(n.Content[i+1], inValue || n.Content[i].Value == "value")
			}
		case yaml.SequenceNode:
			for i := range n.Content {
				if !inValue {
					slots = append(slots, slot{n, i})
				}
				rec(n.Content[i], inValue)
			}
		}
	}
	rec(root, false)
	if len(slots) == 0 {
		return
	}
	junk := func() *yaml.Node {
		switch r.Intn(9) {
		case 0:
			return rawNode("!!null", "null")
		case 1:
			return rawNode("!!int", pick(r, []string{"0", "1", "7"}))
		case 2:
			return rawNode("!!bool", "true")
		case 3:
			return seqNode()
		case 4:
			return mapNode()
		case 5:
			return seqNode(rawNode("!!null", "~"))
		case 6:
			return mapNode(strNode("x"), strNode("y"))
		case 7:
			return seqNode(seqNode(strNode("x")))
		}
		return strNode(pick(r, []string{"x", "bogus"}))
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		sl := pick(r, slots)
		if sl.i >= len(sl.par.Content) {
			continue
		}
		old := sl.par.Content[sl.i]
		switch r.Intn(10) {
		case 0: // remove
			if sl.par.Kind == yaml.MappingNode {
				sl.par.Content = append(sl.par.Content[:sl.i-1:sl.i-1], sl.par.Content[sl.i+1:]...)
			} else {
				sl.par.Content = append(sl.par.Content[:sl.i:sl.i], sl.par.Content[sl.i+1:]...)
			}
			k = 1
		case 1: // a list of it
			sl.par.Content[sl.i] = seqNode(old)
		case 2:
			if old.Kind == yaml.SequenceNode && len(old.Content) > 0 {
				sl.par.Content[sl.i] = old.Content[0]
			} else {
				sl.par.Content[sl.i] = junk()
			}
		case 3: // twice the same key, or a field nobody knows
			if sl.par.Kind == yaml.MappingNode {
				if r.Intn(2) == 0 {
					sl.par.Content = append(sl.par.Content, strNode(sl.par.Content[sl.i-1].Value), junk())
				} else {
					sl.par.Content = append(sl.par.Content, strNode("unknownField"), junk())
				}
			} else {
				sl.par.Content = append(sl.par.Content, junk())
			}
		case 4:
			if sl.par.Kind == yaml.MappingNode {
				sl.par.Content[sl.i-1] = strNode(pick(r, []string{"Query", "overlay", "values", "Action", "yamlfiles"}))
			}
		case 5:
			if sl.par.Kind == yaml.SequenceNode {
				sl.par.Content = append(sl.par.Content, rawNode("!!null", "null"))
			} else {
				sl.par.Content[sl.i] = junk()
			}
		case 6: // an invalid path
			if old.Kind == yaml.ScalarNode && g.qt[old.Value] != nil {
				t := old.Value + pick(r, []string{"[", "[?(", "['a'", "[1:2:3:4]"})
				s.QT = append(s.QT, QText{t, false, nil})
				sl.par.Content[sl.i] = strNode(t)
			} else {
				sl.par.Content[sl.i] = junk()
			}
		default:
			sl.par.Content[sl.i] = junk()
		}
	}
	// the texts that may have come to a place for paths
	one := func(name string) *Path {
		c := st("child")
		c.Name = name
		return &Path{Steps: []*PStep{c}}
	}
	for _, t := range []string{"x", "y", "bogus", "0", "1", "7", "true", "merge", "replace", "delete", "combine", "inject", "ignore", "default", "Inject", "entry"} {
		s.QT = append(s.QT, QText{t, true, one(t)})
	}
}
