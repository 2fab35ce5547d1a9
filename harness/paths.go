package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Path, Sub, Expr and Operand mirror module Query.
type Path struct {
	Root  bool     `json:"root"`
	Steps []*PStep `json:"steps"`
}

type PStep struct {
	Op    string   `json:"op"`
	Name  string   `json:"name"`
	Names []string `json:"names"`
	Subs  []Sub    `json:"subs"`
	E     *Expr    `json:"e,omitempty"`
	Sp    int      `json:"sp,omitempty"` // how it is written: it means the same
}

type Sub struct {
	W    string `json:"w"`
	I    int    `json:"i"`
	HF   bool   `json:"hf"`
	From int    `json:"from"`
	HT   bool   `json:"ht"`
	To   int    `json:"to"`
	HS   bool   `json:"hs"`
	Step int    `json:"step"`
}

type Expr struct {
	F    string `json:"f"`
	O    string `json:"o,omitempty"`
	P    *Path  `json:"p,omitempty"`
	Op   string `json:"op,omitempty"`
	A    any    `json:"a,omitempty"`
	B    any    `json:"b,omitempty"`
	V    string `json:"v"`
	Pre  bool   `json:"pre"`
	Post bool   `json:"post"`
}

// comparesPaths tells whether a filter compares what two paths find.
func (s *Scenario) comparesPaths() bool {
	b, err := json.Marshal(s.QT)
	var qt any
	if err != nil || json.Unmarshal(b, &qt) != nil {
		return false
	}
	isPath := func(x any) bool {
		m, ok := x.(map[string]any)
		return ok && (m["o"] == "at" || m["o"] == "root")
	}
	var walk func(x any) bool
	walk = func(x any) bool {
		switch x := x.(type) {
		case []any:
			for _, y := range x {
				if walk(y) {
					return true
				}
			}
		case map[string]any:
			if x["f"] == "cmp" && isPath(x["a"]) && isPath(x["b"]) {
				return true
			}
			for _, y := range x {
				if walk(y) {
					return true
				}
			}
		}
		return false
	}
	return walk(qt)
}

type Operand struct {
	O string `json:"o"`
	P *Path  `json:"p,omitempty"`
	Y string `json:"y"`
	V string `json:"v"`
}

func st(op string) *PStep { return &PStep{Op: op, Names: []string{}, Subs: []Sub{}} }

var simpleName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]*$`)

// dottedName: names that can be written after a dot.
var dottedName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_:/,;@%^+{}'"-]*$`)

// The bits of PStep.Sp.
const (
	spDouble = 1 << iota
	spOpen
	spClose
	spBefore
	spAfter
	spAll = 1<<iota - 1
)

func spelling(r *rand.Rand) int {
	if r.Intn(3) > 0 {
		return 0
	}
	return r.Intn(spAll + 1)
}

func quoteName(n string, double bool) string {
	q := "'"
	if double {
		q = `"`
	}
	return q + strings.ReplaceAll(strings.ReplaceAll(n, `\`, `\\`), q, `\`+q) + q
}

func bracketNames(ns []string, sp int) string {
	q := make([]string, len(ns))
	for i, n := range ns {
		q[i] = quoteName(n, sp&spDouble != 0)
	}
	space := func(bit int) string {
		if sp&bit != 0 {
			return " "
		}
		return ""
	}
	return "[" + space(spOpen) + strings.Join(q, space(spBefore)+","+space(spAfter)) + space(spClose) + "]"
}

func subText(s Sub) string {
	switch s.W {
	case "*":
		return "*"
	case "i":
		return strconv.Itoa(s.I)
	}
	t := ""
	if s.HF {
		t += strconv.Itoa(s.From)
	}
	t += ":"
	if s.HT {
		t += strconv.Itoa(s.To)
	}
	if s.HS {
		t += ":" + strconv.Itoa(s.Step)
	}
	return t
}

func (p *Path) Text() string {
	var b strings.Builder
	if p.Root {
		b.WriteString("$")
	}
	b.WriteString(stepsText(p.Steps, p.Root))
	return b.String()
}

func stepsText(steps []*PStep, dotted bool) string {
	var b strings.Builder
	for i, s := range steps {
		sp := s.Sp
		if i > 0 {
			sp &^= spOpen // an index is expected otherwise
		}
		switch s.Op {
		case "child":
			if i > 0 && steps[i-1].Op == "descthen" {
				panic("child after descthen")
			}
			if i > 0 || dotted {
				b.WriteString(".")
			}
			b.WriteString(s.Name)
		case "names":
			b.WriteString(bracketNames(s.Names, sp))
		case "wild":
			if s.Name == "[" {
				b.WriteString("[*]")
			} else {
				if i > 0 || dotted {
					b.WriteString(".")
				}
				b.WriteString("*")
			}
		case "idx":
			t := make([]string, len(s.Subs))
			for j, x := range s.Subs {
				t[j] = subText(x)
			}
			b.WriteString("[" + strings.Join(t, ",") + "]")
		case "desc":
			b.WriteString(".." + s.Name)
		case "descwild":
			b.WriteString("..*")
		case "descthen":
			b.WriteString("..")
		case "filter", "rfilter":
			b.WriteString("[?(" + exprText(s.E) + ")]")
		case "prop":
			if i > 0 || dotted {
				b.WriteString(".")
			}
			b.WriteString(s.Name + "~")
		case "props":
			b.WriteString(bracketNames(s.Names, sp) + "~")
		case "wildprop":
			b.WriteString("[*]~")
		}
	}
	return b.String()
}

func operandText(o *Operand) string {
	switch o.O {
	case "at":
		return "@" + stepsText(o.P.Steps, true)
	case "root":
		return "$" + stepsText(o.P.Steps, true)
	}
	if o.Y == "str" {
		return "'" + o.V + "'"
	}
	return o.V
}

func exprText(e *Expr) string {
	switch e.F {
	case "true", "false":
		return e.F
	case "exists":
		return operandText(&Operand{O: e.O, P: e.P})
	case "not":
		return "!(" + exprText(e.A.(*Expr)) + ")"
	case "and":
		return "(" + exprText(e.A.(*Expr)) + ") && (" + exprText(e.B.(*Expr)) + ")"
	case "or":
		return "(" + exprText(e.A.(*Expr)) + ") || (" + exprText(e.B.(*Expr)) + ")"
	case "re":
		t := regexp.QuoteMeta(e.V)
		if e.Pre {
			t = "^" + t
		}
		if e.Post {
			t += "$"
		}
		return operandText(e.A.(*Operand)) + "=~/" + t + "/"
	}
	return operandText(e.A.(*Operand)) + e.Op + operandText(e.B.(*Operand))
}

// ---- generation of paths that have something to do with a document ----

type hit struct {
	n    *yaml.Node
	par  *yaml.Node
	path []any // string: child name, int: index
}

func hits(doc *yaml.Node) []hit {
	var r []hit
	if doc.Kind != yaml.DocumentNode || len(doc.Content) == 0 {
		return r
	}
	var rec func(n, par *yaml.Node, p []any)
	rec = func(n, par *yaml.Node, p []any) {
		r = append(r, hit{n, par, append([]any{}, p...)})
		switch n.Kind {
		case yaml.MappingNode:
			for i := 0; i+1 < len(n.Content); i += 2 {
				if n.Content[i].Kind == yaml.ScalarNode {
					rec(n.Content[i+1], n, append(p, n.Content[i].Value))
				}
			}
		case yaml.SequenceNode:
			for i := range n.Content {
				rec(n.Content[i], n, append(p, i))
			}
		}
	}
	rec(doc.Content[0], nil, nil)
	return r
}

func badName(s string) bool {
	return s == "" || strings.ContainsAny(s, "\n\t") || oddName(s) && strings.Contains(s, ",")
}

// oddName: has something to escape.
func oddName(s string) bool { return strings.ContainsAny(s, "'\\\"") }

func childStep(r *rand.Rand, name string) *PStep {
	if (simpleName.MatchString(name) || r.Intn(2) == 0 && dottedName.MatchString(name)) && r.Intn(4) > 0 {
		s := st("child")
		s.Name = name
		return s
	}
	s := st("names")
	s.Names = []string{name}
	s.Sp = spelling(r)
	return s
}

// exact builds the path to a node; nil if it has a name that cannot be written.
func exact(r *rand.Rand, p []any, plain bool) *Path {
	q := &Path{Root: r.Intn(3) > 0 || len(p) == 0, Steps: []*PStep{}}
	for _, x := range p {
		switch x := x.(type) {
		case string:
			if badName(x) {
				return nil
			}
			if plain && simpleName.MatchString(x) {
				s := st("child")
				s.Name = x
				q.Steps = append(q.Steps, s)
			} else {
				q.Steps = append(q.Steps, childStep(r, x))
			}
		case int:
			s := st("idx")
			s.Subs = []Sub{{W: "i", I: x}}
			q.Steps = append(q.Steps, s)
		}
	}
	fixRoot(q)
	return q
}

func fixRoot(q *Path) {
	if len(q.Steps) == 0 || (q.Steps[0].Op != "child" && q.Steps[0].Op != "names" && q.Steps[0].Op != "desc" && q.Steps[0].Op != "descwild") {
		q.Root = true
	}
}

type pathOpts struct {
	plain   bool // only child names and indexes
	filters bool
	keys    bool // ~ allowed
}

func (g *Gen) path(doc *yaml.Node, o pathOpts) *Path {
	r := g.r
	hs := hits(doc)
	for try := 0; try < 20 && len(hs) > 0; try++ {
		h := hs[r.Intn(len(hs))]
		if len(h.path) == 0 && r.Intn(6) > 0 {
			continue
		}
		q := exact(r, h.path, false)
		if q == nil {
			continue
		}
		if o.plain {
			return q
		}
		g.bend(q, h.path, doc, o)
		fixRoot(q)
		return q
	}
	q := &Path{Root: true, Steps: []*PStep{childStep(r, g.key())}}
	return q
}

// bend replaces steps by other kinds of steps.
func (g *Gen) bend(q *Path, path []any, doc *yaml.Node, o pathOpts) {
	r := g.r
	n := r.Intn(3)
	for k := 0; k < n; k++ {
		if len(q.Steps) == 0 {
			if r.Intn(2) == 0 {
				s := st("descwild")
				q.Steps = append(q.Steps, s)
			}
			continue
		}
		i := r.Intn(len(q.Steps))
		s := q.Steps[i]
		switch s.Op {
		case "child", "names":
			switch r.Intn(7) {
			case 0:
				q.Steps[i] = st("wild")
				if r.Intn(2) == 0 {
					q.Steps[i].Name = "["
				}
			case 1:
				name := s.Name
				if s.Op == "names" {
					name = s.Names[0]
				}
				if oddName(name) {
					break
				}
				u := st("names")
				u.Names = []string{name}
				u.Sp = spelling(r)
				for j := r.Intn(2) + 1; j > 0; j-- {
					x := g.key()
					if badName(x) || oddName(x) {
						continue
					}
					if r.Intn(2) == 0 {
						u.Names = append(u.Names, x)
					} else {
						u.Names = append([]string{x}, u.Names...)
					}
				}
				q.Steps[i] = u
			case 2:
				name := s.Name
				if s.Op == "names" {
					name = s.Names[0]
				}
				if simpleName.MatchString(name) {
					// skip everything before
					d := st("desc")
					d.Name = name
					q.Steps = append([]*PStep{d}, q.Steps[i+1:]...)
				} else {
					d := st("descthen")
					q.Steps = append([]*PStep{d, s}, q.Steps[i+1:]...)
					if s.Op == "child" {
						u := st("names")
						u.Names = []string{s.Name}
						q.Steps[1] = u
					}
				}
			case 3:
				if o.keys && i == len(q.Steps)-1 {
					if s.Op == "child" {
						q.Steps[i] = st("prop")
						q.Steps[i].Name = s.Name
					} else {
						q.Steps[i] = st("props")
						q.Steps[i].Names = s.Names
						if r.Intn(3) == 0 {
							q.Steps[i] = st("wildprop")
						}
					}
				}
			case 4:
				q.Steps = q.Steps[:i]
				q.Steps = append(q.Steps, st("descwild"))
			case 5:
				if o.filters && i == len(q.Steps)-1 && r.Intn(2) == 0 {
					f := st("filter")
					f.E = g.expr(doc, 2)
					q.Steps = append(q.Steps, f)
				}
			}
		case "idx":
			switch r.Intn(6) {
			case 0:
				q.Steps[i] = st("wild")
				if r.Intn(2) == 0 {
					q.Steps[i] = st("idx")
					q.Steps[i].Subs = []Sub{{W: "*"}, {W: "i", I: 0}} // [*] alone is the wildcard
				} else {
					q.Steps[i].Name = "["
				}
			case 1, 2:
				s.Subs = nil
				for j := r.Intn(2) + 1; j > 0; j-- {
					s.Subs = append(s.Subs, g.sub())
				}
			case 3:
				if o.filters {
					f := st("filter")
					f.E = g.expr(doc, 2)
					q.Steps[i] = f
				}
			case 4:
				if o.filters && r.Intn(2) == 0 {
					f := st("rfilter")
					f.E = g.expr(doc, 1)
					q.Steps = append(q.Steps[:i:i], st("descthen"), f)
				} else {
					q.Steps = append([]*PStep{st("descthen")}, q.Steps[i:]...)
				}
			}
		}
	}
	// nothing may follow a key selection, and a key selection needs its step
	for i, s := range q.Steps {
		if (s.Op == "prop" || s.Op == "props" || s.Op == "wildprop") && i < len(q.Steps)-1 {
			q.Steps = q.Steps[:i+1]
			break
		}
	}
	for i := 0; i+1 < len(q.Steps); i++ {
		if q.Steps[i].Op != "descthen" {
			continue
		}
		switch n := q.Steps[i+1]; n.Op {
		case "child", "names":
			name := n.Name
			if n.Op == "names" {
				name = n.Names[0]
			}
			d := st("descwild")
			if simpleName.MatchString(name) {
				d = st("desc")
				d.Name = name
			}
			q.Steps = append(append(q.Steps[:i:i], d), q.Steps[i+2:]...)
		case "wild":
			n.Name = "["
		case "filter":
			n.Op = "rfilter"
		case "desc", "descwild", "descthen":
			q.Steps = append(q.Steps[:i], q.Steps[i+1:]...)
			i--
		case "prop", "props", "wildprop":
			q.Steps = append(q.Steps[:i:i], st("descwild"))
		}
	}
	if l := len(q.Steps); l > 0 && q.Steps[l-1].Op == "descthen" {
		q.Steps[l-1].Op = "descwild"
	}
	for i, s := range q.Steps {
		// behind a recursive step a filter looks at what that step selects, not at its items
		if s.Op == "rfilter" || s.Op == "filter" {
			s.Op = "filter"
			if i > 0 && strings.HasPrefix(q.Steps[i-1].Op, "desc") {
				s.Op = "rfilter"
			}
		}
	}
	// keep the number of recursive steps small
	seen := 0
	for i, s := range q.Steps {
		if strings.HasPrefix(s.Op, "desc") {
			seen++
			if seen > 2 {
				q.Steps = q.Steps[:i]
				if i > 0 && q.Steps[i-1].Op == "descthen" {
					q.Steps[i-1].Op = "descwild"
				}
				break
			}
		}
	}
}

func (g *Gen) sub() Sub {
	r := g.r
	far := 0
	if g.big == "items" {
		far = r.Intn(12)
	}
	switch r.Intn(5) {
	case 0, 1:
		return Sub{W: "i", I: r.Intn(6+2*far) - 3 - far}
	default:
		s := Sub{W: ":"}
		if r.Intn(2) == 0 {
			s.HF, s.From = true, r.Intn(7+2*far)-3-far
		}
		if r.Intn(2) == 0 {
			s.HT, s.To = true, r.Intn(8+2*far)-3-far
		}
		if r.Intn(3) == 0 {
			s.HS, s.Step = true, []int{1, 2, 3, -1, -2}[r.Intn(5)]
		}
		return s
	}
}

func (g *Gen) filterPath(doc *yaml.Node) *Path {
	r := g.r
	p := &Path{Steps: []*PStep{}}
	for j := r.Intn(3); j > 0; j-- {
		k := g.key()
		if badName(k) {
			k = "name"
		}
		p.Steps = append(p.Steps, childStep(r, k))
	}
	if r.Intn(8) == 0 {
		s := st("wild")
		s.Name = "["
		p.Steps = append(p.Steps, s)
	}
	return p
}

func (g *Gen) operandLit() *Operand {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return &Operand{O: "lit", Y: "num", V: g.simpleNumber()}
	case 1:
		return &Operand{O: "lit", Y: "num", V: strconv.Itoa(r.Intn(4))}
	case 2:
		return &Operand{O: "lit", Y: "bool", V: []string{"true", "false"}[r.Intn(2)]}
	case 3:
		return &Operand{O: "lit", Y: "null", V: "null"}
	default:
		return &Operand{O: "lit", Y: "str", V: g.word()}
	}
}

func (g *Gen) expr(doc *yaml.Node, depth int) *Expr {
	r := g.r
	if depth > 0 && r.Intn(3) == 0 {
		switch r.Intn(3) {
		case 0:
			return &Expr{F: "not", A: g.expr(doc, depth-1)}
		case 1:
			return &Expr{F: "and", A: g.expr(doc, depth-1), B: g.expr(doc, depth-1)}
		default:
			return &Expr{F: "or", A: g.expr(doc, depth-1), B: g.expr(doc, depth-1)}
		}
	}
	switch r.Intn(8) {
	case 0, 1:
		p := g.filterPath(doc)
		if len(p.Steps) == 0 {
			p.Steps = append(p.Steps, childStep(r, "name"))
		}
		return &Expr{F: "exists", O: "at", P: p}
	case 2:
		return &Expr{F: "re", A: &Operand{O: "at", P: g.filterPath(doc)}, V: string([]rune(g.word())[:1]), Pre: r.Intn(2) == 0, Post: r.Intn(3) == 0}
	case 3:
		if hs := hits(doc); len(hs) > 0 {
			h := hs[r.Intn(len(hs))]
			if q := exact(r, h.path, true); q != nil && len(q.Steps) > 0 && (h.n.Kind == yaml.ScalarNode) {
				q.Root = true
				return &Expr{F: "cmp", Op: g.cmpOp(), A: &Operand{O: "at", P: g.scalarPath(doc)}, B: &Operand{O: "root", P: q}}
			}
		}
		fallthrough
	default:
		lit := g.operandLit()
		// compare with something that is there
		if hs := hits(doc); len(hs) > 0 && r.Intn(2) == 0 {
			h := hs[r.Intn(len(hs))]
			if h.n.Kind == yaml.ScalarNode {
				switch h.n.ShortTag() {
				case "!!str":
					if !strings.ContainsAny(h.n.Value, "'\\\n\"") && h.n.Value != "" {
						lit = &Operand{O: "lit", Y: "str", V: h.n.Value}
					}
				case "!!int", "!!float":
					lit = &Operand{O: "lit", Y: "num", V: h.n.Value}
				}
			}
		}
		e := &Expr{F: "cmp", Op: g.cmpOp(), A: &Operand{O: "at", P: g.scalarPath(doc)}, B: lit}
		if lit.Y != "num" {
			e.Op = []string{"==", "!="}[r.Intn(2)]
		}
		return e
	}
}

func (g *Gen) cmpOp() string { return []string{"==", "!=", "<", "<=", ">", ">="}[g.r.Intn(6)] }

// scalarPath: where a filter looks for a scalar, mostly below an item of a list.
func (g *Gen) scalarPath(doc *yaml.Node) *Path {
	hs := hits(doc)
	for try := 0; try < 8 && len(hs) > 0; try++ {
		h := hs[g.r.Intn(len(hs))]
		if h.n.Kind != yaml.ScalarNode || len(h.path) == 0 {
			continue
		}
		i := len(h.path)
		for i > 0 {
			if _, ok := h.path[i-1].(int); ok {
				break
			}
			i--
		}
		if q := exact(g.r, h.path[i:], true); q != nil {
			q.Root = false
			return q
		}
	}
	return g.filterPath(doc)
}

func pathTexts(ps []*Path) string {
	t := make([]string, len(ps))
	for i, p := range ps {
		t[i] = p.Text()
	}
	return fmt.Sprint(t)
}
