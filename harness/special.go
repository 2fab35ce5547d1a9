package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// equivalent is the run with an instructions file that says what the command line says; nil if there is none.
func (s *Scenario) equivalent() *Scenario {
	if s.HasInstr || s.AdPath == "" || len(s.AdQs) == 0 {
		return nil
	}
	q := *s
	q.ID = s.ID + "-i"
	q.AdPath, q.AdQs, q.AdAction, q.AdValue = "", nil, "", ""
	ov := mapNode(strNode("query"), seqNode())
	for _, x := range s.AdQs {
		ov.Content[1].Content = append(ov.Content[1].Content, strNode(x))
	}
	if s.AdAction != "" {
		ov.Content = append(ov.Content, strNode("action"), strNode(s.AdAction))
	}
	if s.AdValue != "" {
		docs, err := parseDocs(s.AdValue)
		if err != nil || len(docs) != 1 || len(docs[0].Content) != 1 || docs[0].HeadComment != "" || docs[0].FootComment != "" || hasAliases(docs[0]) {
			return nil
		}
		ov.Content = append(ov.Content, strNode("value"), docs[0].Content[0])
	}
	e := mapNode(strNode("path"), strNode(s.AdPath))
	if s.AdPath == "-" {
		e.Content = append(e.Content, strNode("outputPath"), strNode("stdin.yaml"))
	}
	root := mapNode(strNode("commonOverlays"), seqNode(ov), strNode("yamlFiles"), seqNode(e))
	q.HasInstr = true
	q.Instr = encode([]*yaml.Node{root}, 2)
	q.InstrArg, q.InstrDir = "adhoc-instructions", s.Cwd
	q.Files = append(append([]SFile{}, s.Files...), SFile{path.Join(s.Cwd, "adhoc-instructions"), q.Instr})
	return &q
}

// rerun puts the results of runs through yot again, without overlays and with the same ones.
func (c *check) rerun(scs []*Scenario, exp map[string]*Outcome, obs map[string]*Observed) error {
	var again, same []*Scenario
	texts := map[string]map[string]string{}
	for _, s := range scs {
		e, o := exp[s.ID], obs[s.ID]
		if e == nil || o == nil || e.Exit != 0 || e.Stdout || len(e.Out) == 0 || s.EnvCmd {
			continue
		}
		e = e.in(rootOf(s))
		t := map[string]string{}
		s2 := &Scenario{ID: s.ID + "-r", CLI: true, Cwd: "w", InstrDir: "w", Text: true, Dirs: []string{}, QT: []QText{}, AdPath: "res"}
		// the same presentation, nothing else
		for _, n := range []string{"indentLevel", "outputStyle"} {
			if n == "indentLevel" {
				s2.Flags = append(s2.Flags, KV{n, e.Indent})
			} else if e.StyleText != "" {
				s2.Flags = append(s2.Flags, KV{n, strings.Trim(e.StyleText, "[]")})
			}
		}
		for i, f := range e.Out {
			text := o.After[abs(abs(rootOf(s), s.Cwd), f.Target)]
			name := fmt.Sprintf("r%d.yaml", i)
			s2.Files = append(s2.Files, SFile{"w/res/" + name, text})
			t["output/"+name] = text
		}
		texts[s2.ID] = t
		again = append(again, s2)
		// with the same instructions
		if len(e.Out) == 1 && len(e.Files) == 1 && s.HasInstr && len(s.Values) == 0 && s.AdPath == "" {
			s3 := *s
			s3.ID = s.ID + "-s"
			in := ""
			s3.Files = nil
			for _, f := range s.Files {
				if abs(rootOf(s), f.Path) == abs(abs(rootOf(s), s.Cwd), e.Out[0].In) {
					in = f.Path
					f.Text = o.After[abs(abs(rootOf(s), s.Cwd), e.Out[0].Target)]
				}
				s3.Files = append(s3.Files, f)
			}
			if in != "" {
				same = append(same, &s3)
			}
		}
	}
	exp2, obs2, err := c.conform(again)
	if err != nil {
		return err
	}
	for _, s := range again {
		if o := obs2[s.ID]; o != nil {
			got := map[string]string{}
			root := rootOf(s)
			for _, p := range changes(o) {
				got[strings.TrimPrefix(p, root+"/w/")] = o.After[p]
			}
			if d := sameTexts(texts[s.ID], got); d != "" {
				c.fails = append(c.fails, failure{Property: c.id, Scenario: s, Expected: exp2[s.ID], Diff: d})
			}
		}
	}
	c.addPart("results run again without overlays", len(again))
	_, _, err = c.conform(same)
	c.addPart("results run again with the same overlays", len(same))
	return err
}

// bare text is a text without comments and empty lines: the YAML library may find another node for a comment when it
// reads it again.
func bareText(s string) string {
	docs, err := parseDocs(s)
	if err != nil {
		return s
	}
	found := false
	for _, d := range docs {
		walk(d, func(n *yaml.Node) {
			found = found || n.HeadComment+n.LineComment+n.FootComment != ""
			n.HeadComment, n.LineComment, n.FootComment = "", "", ""
		})
	}
	if !found {
		return s
	}
	return encode(docs, 2)
}

func sameTexts(want, got map[string]string) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if bareText(got[n]) != bareText(want[n]) {
			return fmt.Sprintf("%s: %q became %q", n, want[n], got[n])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d results instead of %d", len(got), len(want))
	}
	return ""
}
