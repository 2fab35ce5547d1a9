package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

// specRun is a scenario that the specification made, with its outcome.
type specRun struct {
	Scenario specScenario `json:"scenario"`
	Outcome  *Outcome     `json:"outcome"`
	Order    []string     `json:"order"` // of the steps, for the hooks
}

type specScenario struct {
	Cmd   string `json:"cmd"`
	ID    string `json:"id"`
	Cwd   string `json:"cwd"`
	CLI   bool   `json:"cli"`
	Instr struct {
		Has, Bad bool
		Docs     []*Node
		Dir      string
	} `json:"instr"`
	FS []struct {
		Path string
		Docs []*Node
		Bad  bool
	} `json:"fs"`
	Dirs  []string `json:"dirs"`
	Stdin struct {
		Docs []*Node
		Bad  bool
	} `json:"stdin"`
	AdPath string `json:"adpath"`
	AdOv   struct {
		Has    bool
		Texts  []string
		Action string
		Given  []string
		Value  *Node
	} `json:"adov"`
	Flags   []KV   `json:"flags"`
	Env     []KV   `json:"env"`
	Asked   string `json:"asked"`
	Full    bool   `json:"full"`
	Configs []struct {
		Path  string `json:"path"`
		Where string
		Vals  []KV
		Bad   bool
	} `json:"configs"`
	Instructions string `json:"instructions"` // name of the instructions file, if it is not the usual one
	Text         bool   `json:"text"`
	Template     string `json:"template"` // the text of the instructions, if it is rendered with values
	Values       []struct {
		Docs []*Node
		Bad  bool
	} `json:"values"`
}

// cfg is the configuration TLC runs the module with.
func (m model) cfg() string {
	if m.config != "" {
		return m.config
	}
	return m.module
}

const badYAML = "a: [1\nb: ]\n"

// model enumerates the scenarios of a module with TLC and replays them.
func (c *check) model(m model) error {
	parts := m.quick
	if c.thorough() {
		parts = m.deep
	}
	if parts < 1 {
		parts = 1
	}
	start := time.Now()
	part := c.seed
	for _, ch := range c.id {
		part = 31*part + int64(ch)
	}
	part = (part%int64(parts) + int64(parts)) % int64(parts)
	sr, err := m.runs(parts, part)
	if err != nil {
		return err
	}
	st, scs, ordered, exp := sr.st, sr.scs, sr.ordered, sr.exp
	if _, err = c.against(scs, exp); err != nil {
		return err
	}
	if err = c.inOrders(ordered, exp); err != nil {
		return err
	}
	c.states += st.States
	c.distinct += st.Distinct
	ms, _ := c.parts["models"].(map[string]any)
	if ms == nil {
		ms = map[string]any{}
		c.parts["models"] = ms
	}
	ms[m.cfg()] = map[string]any{"states": st.States, "distinct states": st.Distinct, "behaviours replayed": len(scs) + len(ordered), "part": fmt.Sprintf("1 of %d", parts),
		"TLC seconds": int(st.Wall), "seconds": int(time.Since(start).Seconds()), "invariants": m.says}
	return nil
}

// specRuns is what the specification made of a part of a model.
type specRuns struct {
	st      *TLCStats
	scs     []*Scenario
	ordered []orderedRun
	exp     map[string]*Outcome
}

// runs has TLC enumerate a part of the model.
func (m model) runs(parts int, part int64) (*specRuns, error) {
	st, err := runTLC(m.module+".tla", m.cfg()+".cfg", workers, []string{"PARTS=" + strconv.Itoa(parts), "PART=" + strconv.FormatInt(part, 10)}, 30*time.Minute)
	if err != nil {
		return nil, err
	}
	if st.Code != 0 {
		return nil, fmt.Errorf("TLC on %s: %s", m.module, complaint(st.Output))
	}
	var scs []*Scenario
	exp := map[string]*Outcome{}
	var ordered []orderedRun
	seen := map[string]bool{}
	for _, l := range st.Lines {
		var r specRun
		if err := json.Unmarshal([]byte(l), &r); err != nil {
			return nil, fmt.Errorf("cannot read %.200s: %v", l, err)
		}
		s, err := r.Scenario.scenario()
		if err != nil {
			return nil, fmt.Errorf("%s of %s: %v", r.Scenario.ID, m.module, err)
		}
		s.ID = strings.ToLower(m.module) + "-" + s.ID
		s.Levels = m.module == "MC_Settings"
		s.Note = "from " + m.module
		if m.ordered {
			// what may come out does not depend on the order: the most that does in one
			if e := exp[s.ID]; e == nil || len(e.Out) < len(r.Outcome.Out) {
				exp[s.ID] = r.Outcome
			}
			if k := s.ID + strings.Join(r.Order, "\n"); !seen[k] {
				seen[k] = true
				ordered = append(ordered, orderedRun{s, r.Order})
			}
			continue
		}
		r.Outcome.ID = s.ID
		if exp[s.ID] != nil {
			return nil, fmt.Errorf("two scenarios %s of %s", s.ID, m.module)
		}
		exp[s.ID] = r.Outcome
		scs = append(scs, s)
	}
	if len(scs)+len(ordered) == 0 && !m.silent {
		return nil, fmt.Errorf("%s made no scenarios", m.module)
	}
	return &specRuns{st, scs, ordered, exp}, nil
}

// orderedRun is a scenario with the order its steps have to happen in.
type orderedRun struct {
	s     *Scenario
	order []string
}

// inOrders replays scenarios with the steps on their files in given orders.
func (c *check) inOrders(rs []orderedRun, exp map[string]*Outcome) error {
	var first error
	free := 0
	parallel(len(rs), func(i int) {
		if c.enough() {
			return
		}
		s := *rs[i].s
		s.ID = fmt.Sprintf("%s-order%d", s.ID, i)
		e := exp[rs[i].s.ID]
		d, forced, err := c.inOrder(&s, e, rs[i].order)
		c.mu.Lock()
		defer c.mu.Unlock()
		if err != nil {
			first = err
			return
		}
		if !forced {
			free++
		}
		c.count(&s, e)
		if d != "" {
			c.fails = append(c.fails, failure{Property: c.id, Scenario: &s, Expected: e, Diff: d, Race: c.plan.race, Order: rs[i].order})
		}
	})
	c.addPart("orders forced", len(rs)-free)
	c.addPart("orders that could not be forced", free)
	return first
}

func (c *check) inOrder(s *Scenario, e *Outcome, order []string) (string, bool, error) {
	root := rootOf(s)
	list, trace := root+".order", root+".trace"
	defer os.RemoveAll(root)
	defer os.Remove(list)
	defer os.Remove(trace)
	text := ""
	for _, o := range order {
		step := strings.SplitN(o, " ", 2)
		text += step[0] + " " + realPath(root, step[1]) + "\n"
	}
	if err := os.MkdirAll(filepath.Dir(root), 0755); err != nil {
		return "", false, err
	}
	for _, f := range []string{list, trace} {
		if err := os.WriteFile(f, []byte(text), 0644); err != nil {
			return "", false, err
		}
		own(f)
	}
	d, _, err := c.one(s, e, "YOT_PROBE_ORDER="+list, "YOT_PROBE_TRACE="+trace)
	b, _ := os.ReadFile(trace)
	return d, !strings.Contains(string(b), `"gave-up"`), err
}

func below(p string) string { return strings.TrimPrefix(strings.TrimPrefix(p, specRoot), "/") }

// inRoot puts the mark of the sandbox for the root of the specification's file system.
func inRoot(s string) string {
	if s == specRoot || strings.HasPrefix(s, specRoot+"/") {
		return rootMark + s[len(specRoot):]
	}
	return s
}

func inRoots(kvs []KV) []KV {
	var r []KV
	for _, kv := range kvs {
		r = append(r, KV{kv.N, inRoot(kv.V)})
	}
	return r
}

func (x *specScenario) scenario() (*Scenario, error) {
	s := &Scenario{ID: x.ID, Cwd: below(x.Cwd), CLI: x.CLI, EnvCmd: x.Cmd == "env", EnvArg: x.Asked, Full: x.Full, HasInstr: x.Instr.Has, AdPath: inRoot(x.AdPath),
		Flags: inRoots(x.Flags), Env: inRoots(x.Env), InstrDir: below(x.Instr.Dir), Text: x.Text}
	if x.AdOv.Has || len(x.AdOv.Given) == 1 {
		s.AdQs, s.AdAction = x.AdOv.Texts, x.AdOv.Action
		if len(x.AdOv.Given) == 1 {
			s.AdAction = x.AdOv.Given[0] // as on the command line
		}
		if x.AdOv.Value.K != "0" {
			t, err := textOf([]*Node{{K: "d", C: []*Node{x.AdOv.Value}}})
			if err != nil {
				return nil, err
			}
			s.AdValue = t
		}
	}
	for _, d := range x.Dirs {
		if d := below(d); d != s.Cwd && d != "home" {
			s.Dirs = append(s.Dirs, d)
		}
	}
	for _, f := range x.FS {
		t, err := textOf(f.Docs)
		if err != nil {
			return nil, err
		}
		if f.Bad {
			t = badYAML
		}
		s.Files = append(s.Files, SFile{below(f.Path), t})
	}
	if x.Instr.Has {
		t, err := textOf(x.Instr.Docs)
		if err != nil {
			return nil, err
		}
		if x.Instr.Bad {
			t = badYAML
		}
		if x.Template != "" {
			t = x.Template
		}
		for i, v := range x.Values {
			vt, err := textOf(v.Docs)
			if err != nil {
				return nil, err
			}
			if v.Bad {
				vt = badYAML
			}
			p := path.Join(s.Cwd, fmt.Sprintf("values%d.yaml", i))
			s.Files = append(s.Files, SFile{p, vt})
			s.Values = append(s.Values, path.Base(p))
		}
		name := x.Instructions
		if name == "" {
			name = "instructions.txt"
		}
		s.Instr, s.InstrArg = t, path.Join(rootMark, s.InstrDir, name)
		s.Files = append(s.Files, SFile{path.Join(s.InstrDir, name), t})
	}
	var err error
	if s.Stdin, err = textOf(x.Stdin.Docs); err != nil {
		return nil, err
	}
	if x.Stdin.Bad {
		s.Stdin = badYAML
	}
	for _, c := range x.Configs {
		p := below(c.Path)
		text := configText(inRoots(c.Vals))
		if c.Bad {
			text = badYAML
		}
		s.Files = append(s.Files, SFile{p, text})
		s.Configs = append(s.Configs, SConfig{c.Where, path.Join(rootMark, p), inRoots(c.Vals), c.Bad})
	}
	return s, nil
}

const nullKey = "nullkey0"

// textOf writes documents such that reading them gives the same trees.
func textOf(docs []*Node) (string, error) {
	if len(docs) == 0 {
		return "", nil
	}
	text := ""
	for i, d := range docs {
		n := fromTree(d)
		labels := map[string]*yaml.Node{}
		anchors(d, n, labels)
		aliases(d, n, labels)
		walk(n, func(n *yaml.Node) {
			if n.Kind == yaml.MappingNode {
				for i := 0; i < len(n.Content); i += 2 {
					if k := n.Content[i]; k.Kind == yaml.ScalarNode && k.Value == "" && k.ShortTag() == "!!null" {
						k.Tag, k.Value = "", nullKey
					}
				}
			}
			if n.Kind == yaml.ScalarNode && (n.Value == "<<" || strings.ContainsAny(n.Value, "\n\u2028\u2029")) && n.ShortTag() == "!!str" {
				n.Style = yaml.DoubleQuotedStyle // what cannot go wrong
			}
		})
		if i > 0 {
			text += "---\n"
		}
		if len(n.Content) > 0 {
			text += strings.ReplaceAll(encode([]*yaml.Node{n}, 2), nullKey+":", "!!null :")
		}
	}
	back, err := parseDocs(text)
	if err != nil {
		return "", fmt.Errorf("cannot write %s: %v", text, err)
	}
	a, b := strip(toTrees(back)), strip(docs)
	got, _ := json.Marshal(a)
	want, _ := json.Marshal(b)
	for i := range b {
		x, _ := json.Marshal(b[i])
		y := []byte("nothing")
		if i < len(a) {
			y, _ = json.Marshal(a[i])
		}
		if string(x) != string(y) {
			return "", fmt.Errorf("document %d is %s, not %s", i, y, x)
		}
	}
	if string(got) != string(want) {
		return "", fmt.Errorf("%s does not stand for the tree: %s, not %s", text, got, want)
	}
	return strings.ReplaceAll(text, specRoot+"/", rootMark+"/"), nil
}

func anchors(d *Node, n *yaml.Node, labels map[string]*yaml.Node) {
	if d.A != "" {
		n.Anchor = d.A
		labels[d.A] = n
	}
	for i, c := range d.C {
		anchors(c, n.Content[i], labels)
	}
}

func aliases(d *Node, n *yaml.Node, labels map[string]*yaml.Node) {
	if d.K == "a" {
		n.Alias = labels[d.V]
	}
	for i, c := range d.C {
		aliases(c, n.Content[i], labels)
	}
}

// strip leaves out what reading does not give: identities, tags that are not there.
func strip(ds []*Node) []*Node {
	r := []*Node{}
	for _, d := range ds {
		x := &Node{K: d.K, V: d.V, C: strip(d.C), H: d.H, L: d.L, F: d.F, A: d.A}
		if d.K != "d" && d.K != "a" {
			x.T = shortTag(d)
		}
		r = append(r, x)
	}
	return r
}
