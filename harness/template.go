package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

// Fn is a function a value is piped through.
type Fn struct {
	F string `json:"f"`
	X string `json:"x"`
	Y string `json:"y"`
}

// TExpr is an expression of a template.
type TExpr struct {
	O  string   `json:"o"` // dot, root, var
	V  string   `json:"v"`
	P  []string `json:"p"`
	Fs []Fn     `json:"fs"`
}

// Piece is a part of a template.
type Piece struct {
	Op   string   `json:"op"`
	S    string   `json:"s"`
	TL   bool     `json:"tl"`
	TR   bool     `json:"tr"`
	E    TExpr    `json:"e"`
	V    string   `json:"v"`
	Name string   `json:"name"`
	A    []*Piece `json:"a"`
	B    []*Piece `json:"b"`
}

type TDef struct {
	Name string   `json:"name"`
	Body []*Piece `json:"body"`
}

type TValues struct {
	Docs []*Node `json:"docs"`
	Bad  bool    `json:"bad"`
}

// Tmpl is a templated text.
type Tmpl struct {
	ID     string    `json:"id"`
	OK     bool      `json:"ok"`
	Pieces []*Piece  `json:"pieces"`
	Defs   []TDef    `json:"defs"`
	Values []TValues `json:"values"`
}

func noExpr() TExpr { return TExpr{O: "dot", P: []string{}, Fs: []Fn{}} }

func lit(s string) *Piece {
	return &Piece{Op: "lit", S: s, E: noExpr(), A: []*Piece{}, B: []*Piece{}}
}

func piece(op string, e TExpr) *Piece {
	if e.Fs == nil {
		e.Fs = []Fn{}
	}
	if e.P == nil {
		e.P = []string{}
	}
	return &Piece{Op: op, E: e, A: []*Piece{}, B: []*Piece{}}
}

// tgen makes a template that renders to a given text, or nearly.
type tgen struct {
	r      *rand.Rand
	vals   *yaml.Node // the values the template needs
	defs   []TDef
	n      int
	wrong  int // per cent of values that are not the original ones
	vars   []string
	root   string // how the values are reached: dot, root or nothing
	syntax bool   // a syntax error is to be put in
}

func (t *tgen) pct(n int) bool { return t.r.Intn(100) < n }

var segPool = []string{"app", "cfg", "image", "Name", "opts", "k8s", "web"}

// put stores a value and gives the names it is at.
func (t *tgen) put(v *yaml.Node) []string {
	t.n++
	p := []string{}
	for t.pct(40) && len(p) < 2 {
		p = append(p, pick(t.r, segPool))
	}
	p = append(p, fmt.Sprintf("v%d", t.n))
	m := t.vals
	for i, s := range p {
		if i == len(p)-1 {
			m.Content = append(m.Content, strNode(s), v)
			break
		}
		var next *yaml.Node
		for k := 0; k+1 < len(m.Content); k += 2 {
			if m.Content[k].Value == s {
				next = m.Content[k+1]
			}
		}
		if next == nil {
			next = mapNode()
			m.Content = append(m.Content, strNode(s), next)
		}
		m = next
	}
	return p
}

// expr reaches a value of the values files.
func (t *tgen) expr(v *yaml.Node, fs ...Fn) TExpr {
	return TExpr{O: t.root, P: t.put(v), Fs: append([]Fn{}, fs...)}
}

func (t *tgen) missing(fs ...Fn) TExpr {
	return TExpr{O: t.root, P: []string{"absent" + pick(t.r, []string{"", "A"})}, Fs: append([]Fn{}, fs...)}
}

var intRe = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,8})$`)

func scalarFor(text string) *yaml.Node {
	if intRe.MatchString(text) {
		return rawNode("!!int", text)
	}
	if text == "true" || text == "false" {
		return rawNode("!!bool", text)
	}
	return strNode(text)
}

// ref is an expression whose text is the given one.
func (t *tgen) ref(text string) TExpr {
	r := t.r
	if t.pct(t.wrong) {
		switch r.Intn(3) {
		case 0:
			return t.missing()
		case 1:
			return t.missing(Fn{F: pick(r, []string{"quote", "squote", "upper", "len", "toString"})})
		}
		return t.expr(strNode(pick(r, []string{"other", "a: b", "[", "", "x\ny"})))
	}
	switch r.Intn(16) {
	case 0:
		if up := strings.ToUpper(text); strings.ToLower(up) == text {
			return t.expr(strNode(up), Fn{F: "lower"})
		}
	case 1:
		if lo := strings.ToLower(text); strings.ToUpper(lo) == text {
			return t.expr(strNode(lo), Fn{F: "upper"})
		}
	case 2:
		return t.missing(Fn{F: "default", X: text})
	case 3:
		return t.expr(pick(r, []*yaml.Node{strNode(""), rawNode("!!bool", "false"), rawNode("!!int", "0"), seqNode(), mapNode()}), Fn{F: "default", X: text})
	case 4:
		return t.expr(strNode(pick(r, []string{" ", "\t", "\n", ""})+text+pick(r, []string{"  ", "\n", ""})), Fn{F: "trim"})
	case 5:
		return t.expr(strNode("pre-"+text), Fn{F: "trimPrefix", X: pick(r, []string{"pre-", "pre-", "x"})})
	case 6:
		return t.expr(strNode(text+".svc"), Fn{F: "trimSuffix", X: ".svc"})
	case 7:
		if text != "" && len(text) > 1 {
			i := 1 + r.Intn(len(text)-1)
			sep := text[i-1 : i]
			q := seqNode()
			for _, x := range strings.Split(text, sep) {
				q.Content = append(q.Content, strNode(x))
			}
			return t.expr(q, Fn{F: "join", X: sep})
		}
	case 8:
		q := seqNode(scalarFor(text), strNode("tail"))
		return t.expr(q, Fn{F: "first"})
	case 9:
		q := seqNode(strNode("front"), scalarFor(text))
		return t.expr(q, Fn{F: "last"})
	case 10:
		b := pick(r, []string{"true", "false"})
		f := Fn{F: "ternary", X: text, Y: "second"}
		if b == "false" {
			f = Fn{F: "ternary", X: "second", Y: text}
		}
		return t.expr(rawNode("!!bool", b), f)
	case 11:
		if len(text) > 0 {
			return t.expr(strNode(strings.ReplaceAll(text, text[:1], "__")), Fn{F: "replace", X: "__", Y: text[:1]})
		}
	case 12:
		return t.expr(scalarFor(text), Fn{F: "toString"})
	case 13:
		return t.expr(strNode(text), Fn{F: "quote"})
	case 14:
		if n := len(text); intRe.MatchString(text) && n < 3 {
			var k int
			fmt.Sscan(text, &k)
			if k >= 0 && k < 20 {
				return t.expr(strNode(strings.Repeat("x", k)), Fn{F: "len"})
			}
		}
	}
	return t.expr(scalarFor(text))
}

// cond is an expression that holds or not.
func (t *tgen) cond(holds bool) TExpr {
	r := t.r
	no := func() *yaml.Node {
		return pick(r, []*yaml.Node{rawNode("!!bool", "false"), strNode(""), rawNode("!!int", "0"), seqNode(), mapNode(), rawNode("!!null", "null")})
	}
	yes := func() *yaml.Node {
		return pick(r, []*yaml.Node{rawNode("!!bool", "true"), strNode("false"), strNode("x"), rawNode("!!int", "7"), rawNode("!!int", "-1"), seqNode(strNode("")), mapNode(strNode("k"), strNode(""))})
	}
	switch r.Intn(8) {
	case 0:
		if holds {
			return t.expr(no(), Fn{F: pick(r, []string{"not", "empty"})})
		}
		return t.expr(yes(), Fn{F: pick(r, []string{"not", "empty"})})
	case 1:
		if holds {
			return t.expr(strNode("prod"), Fn{F: "eq", X: "prod"})
		}
		return t.expr(strNode(pick(r, []string{"dev", "Prod", ""})), Fn{F: "eq", X: "prod"})
	case 2:
		if holds {
			return t.missing(Fn{F: "not"})
		}
		return t.missing()
	}
	if holds {
		return t.expr(yes())
	}
	return t.expr(no())
}

var (
	pairRe = regexp.MustCompile(`^(\s*(?:- )*)([A-Za-z]+): ([A-Za-z0-9_./-]+|"[A-Za-z0-9_./ -]*")$`)
	itemRe = regexp.MustCompile(`^(\s*(?:- )+)([A-Za-z0-9_./-]+)$`)
)

func indentOf(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

// lines makes pieces of lines.
func (t *tgen) lines(ls []string, depth int) []*Piece {
	var ps []*Piece
	r := t.r
	vars := t.vars
	defer func() { t.vars = vars }()
	for i := 0; i < len(ls); {
		l := ls[i]
		if depth < 3 && strings.HasPrefix(strings.TrimLeft(l, " "), "- ") {
			d := indentOf(l)
			j := i + 1
			for j < len(ls) && (indentOf(ls[j]) > d || strings.TrimSpace(ls[j]) == "") {
				j++
			}
			if t.pct(14) {
				ps = append(ps, t.block(ls[i:j], depth)...)
				i = j
				continue
			}
			// a list of plain items
			k := i
			var items []string
			for k < len(ls) && indentOf(ls[k]) == d {
				m := itemRe.FindStringSubmatch(ls[k])
				if m == nil || len(m[1]) != d+2 {
					break
				}
				items = append(items, m[2])
				k++
			}
			if len(items) > 0 && t.pct(12) {
				ps = append(ps, t.list(strings.Repeat(" ", d), items)...)
				i = k
				continue
			}
		}
		if t.pct(4) {
			p := piece("note", noExpr())
			p.S = pick(r, []string{" a note ", " {{ .x }} ", ""})
			ps = append(ps, p)
			if t.pct(50) {
				ps = append(ps, lit("\n"))
			}
		}
		if t.pct(4) {
			t.n++
			v := fmt.Sprintf("w%d", t.n)
			word := pick(r, []string{"one", "two", "three"})
			p := piece("let", t.ref(word))
			p.V = v
			// the line break before it goes
			if len(ps) > 0 && ps[len(ps)-1].Op == "lit" {
				ps[len(ps)-1].TR = true
				ps = append(ps, p, lit("\n"))
			} else {
				ps = append(ps, p)
			}
			t.vars = append(append([]string{}, t.vars...), v)
		}
		ps = append(ps, t.line(l)...)
		i++
	}
	return merged(ps)
}

func (t *tgen) line(l string) []*Piece {
	m := pairRe.FindStringSubmatch(l)
	pre := ""
	text := ""
	if m != nil {
		pre, text = m[1]+m[2]+": ", m[3]
	} else if m = itemRe.FindStringSubmatch(l); m != nil {
		pre, text = m[1], m[2]
	}
	if m == nil || !t.pct(30) {
		return []*Piece{lit(l + "\n")}
	}
	if strings.HasPrefix(text, `"`) {
		text = strings.Trim(text, `"`)
		if t.pct(50) {
			e := t.ref(text)
			e.Fs = append(append([]Fn{}, e.Fs...), Fn{F: "quote"})
			return []*Piece{lit(pre), piece("ref", e), lit("\n")}
		}
		return []*Piece{lit(pre + `"`), piece("ref", t.ref(text)), lit("\"\n")}
	}
	switch t.r.Intn(10) {
	case 0: // a part of it
		if len(text) > 2 {
			return []*Piece{lit(pre + text[:1]), piece("ref", t.ref(text[1:2])), lit(text[2:] + "\n")}
		}
	case 1: // in a conditional
		p := piece("if", t.cond(true))
		p.A = []*Piece{lit(text)}
		p.B = []*Piece{lit("another")}
		if t.pct(40) {
			p.E = t.cond(false)
			p.A, p.B = p.B, p.A
		}
		return []*Piece{lit(pre), p, lit("\n")}
	case 2: // chained conditions
		p := piece("if", t.cond(false))
		p.A = []*Piece{lit("first")}
		q := piece("if", t.cond(true))
		q.A = []*Piece{piece("ref", t.ref(text))}
		q.B = []*Piece{lit("third")}
		p.B = []*Piece{q}
		return []*Piece{lit(pre), p, lit("\n")}
	case 3: // with
		p := piece("with", t.expr(scalarFor(text)))
		p.A = []*Piece{piece("ref", noExpr())}
		p.B = []*Piece{lit("none")}
		return []*Piece{lit(pre), p, lit("\n")}
	case 4: // a named template
		t.n++
		d := TDef{Name: fmt.Sprintf("t%d", t.n)}
		c := piece("call", t.expr(scalarFor(text)))
		c.Name = d.Name
		if t.pct(50) {
			m := mapNode(strNode("part"), scalarFor(text))
			c.E = t.expr(m)
			e := noExpr()
			e.O = pick(t.r, []string{"dot", "root"})
			e.P = []string{"part"}
			d.Body = []*Piece{piece("ref", e)}
		} else {
			d.Body = []*Piece{piece("ref", noExpr())}
		}
		if t.pct(30) { // trimmed inside
			d.Body = []*Piece{lit("\n  "), d.Body[0], lit(" \n")}
			d.Body[0].TR, d.Body[2].TL = true, true
		}
		t.defs = append(t.defs, d)
		return []*Piece{lit(pre), c, lit("\n")}
	case 5: // a variable
		t.n++
		v := fmt.Sprintf("x%d", t.n)
		p := piece("let", t.expr(scalarFor(text)))
		p.V = v
		e := TExpr{O: "var", V: v, P: []string{}, Fs: []Fn{}}
		return []*Piece{lit(pre), p, piece("ref", e), lit("\n")}
	case 6: // with blanks that are trimmed
		a, b := lit(pre+"  "), lit("  \n")
		if t.pct(50) {
			b.S = "   " + pick(t.r, []string{"", "x"}) + "\n"
			b.TL = true
			if b.S == "   \n" {
				b.S, b.TL = "\n", false
			}
		}
		return []*Piece{a, piece("ref", t.ref(text)), b}
	case 7: // a variable from before
		if len(t.vars) > 0 {
			e := TExpr{O: "var", V: pick(t.r, t.vars), P: []string{}, Fs: []Fn{}}
			return []*Piece{lit(pre), piece("ref", e), lit("\n")}
		}
	}
	return []*Piece{lit(pre), piece("ref", t.ref(text)), lit("\n")}
}

// block makes a block of lines conditional or repeated.
func (t *tgen) block(ls []string, depth int) []*Piece {
	r := t.r
	text := func() []*Piece { return t.lines(ls, depth+1) }
	// inside another dot
	deeper := func(f func() []*Piece) []*Piece {
		old := t.root
		t.root = "root"
		defer func() { t.root = old }()
		return f()
	}
	other := func() []*Piece {
		if t.pct(60) {
			return []*Piece{}
		}
		return []*Piece{lit(strings.Repeat(" ", indentOf(ls[0])) + "# nothing\n")}
	}
	var p *Piece
	keep := !t.pct(25)
	switch r.Intn(5) {
	case 0, 1:
		p = piece("if", t.cond(keep))
		p.A, p.B = text(), other()
		if t.pct(30) {
			p.E = t.cond(!keep)
			p.A, p.B = p.B, p.A
		}
	case 2:
		p = piece("with", t.cond(keep))
		p.A, p.B = deeper(text), other()
	case 3:
		q := seqNode()
		for k := r.Intn(3); k >= 0; k-- {
			q.Content = append(q.Content, strNode(pick(r, []string{"", "i"})))
		}
		if !keep {
			q.Content = nil
		} else if t.pct(60) {
			q.Content = q.Content[:1]
		}
		p = piece("range", t.expr(q))
		if q.Content == nil && t.pct(50) {
			p.E = t.missing()
		}
		p.A, p.B = deeper(text), other()
	default: // of a map, by a variable
		m := mapNode()
		for _, k := range []string{"z", "b", "a"}[:r.Intn(3)] {
			m.Content = append(m.Content, strNode(k), mapNode(strNode("t"), strNode(k)))
		}
		t.n++
		p = piece("range", t.expr(m))
		if t.pct(60) {
			p.V = fmt.Sprintf("it%d", t.n)
		}
		e := TExpr{O: "dot", P: []string{"t"}, Fs: []Fn{}}
		if p.V != "" {
			e.O, e.V = "var", p.V
		}
		in := strings.Repeat(" ", indentOf(ls[0]))
		p.A = append(deeper(text), lit(in+"# "), piece("ref", e), lit("\n"))
		p.A = merged(p.A)
		p.B = other()
	}
	if t.pct(50) {
		return []*Piece{p}
	}
	// on lines of its own
	if t.pct(50) {
		p.A = merged(append([]*Piece{lit("\n")}, p.A...))
		if len(p.A) > 0 && p.A[0].Op == "lit" && t.pct(30) && p.A[0].S == "\n" {
			p.A[0].TL = true
		}
		return []*Piece{p, lit("\n")}
	}
	return []*Piece{p, lit("\n")}
}

// list makes a range of a list of words.
func (t *tgen) list(in string, items []string) []*Piece {
	q := seqNode()
	maps := t.pct(40)
	for _, x := range items {
		if maps {
			q.Content = append(q.Content, mapNode(strNode("name"), scalarFor(x)))
		} else {
			q.Content = append(q.Content, scalarFor(x))
		}
	}
	p := piece("range", t.expr(q))
	e := noExpr()
	if t.pct(40) {
		t.n++
		p.V = fmt.Sprintf("it%d", t.n)
		e.O, e.V = "var", p.V
	}
	if maps {
		e.P = []string{"name"}
	}
	p.A = []*Piece{lit(in + "- "), piece("ref", e), lit("\n")}
	if t.pct(40) {
		// {{- range }}, a line break before each item
		p.A = []*Piece{lit("\n" + in + "- "), piece("ref", e)}
		return []*Piece{p, lit("\n")}
	}
	return []*Piece{p}
}

// merged puts neighbouring literals together.
func merged(ps []*Piece) []*Piece {
	out := []*Piece{}
	for _, p := range ps {
		if n := len(out); n > 0 && p.Op == "lit" && out[n-1].Op == "lit" {
			l := out[n-1]
			// blanks trimmed inside are trimmed here
			a, b := l.S, p.S
			if l.TR {
				a = strings.TrimRight(a, " \t\r\n")
			}
			if p.TL {
				b = strings.TrimLeft(b, " \t\r\n")
			}
			m := lit(a + b)
			m.TL, m.TR = l.TL, p.TR
			out[n-1] = m
			continue
		}
		out = append(out, p)
	}
	return out
}

// ---- the text of a template ----

type token struct {
	text   string
	action bool
	tl, tr bool // of a text
}

func quoteArg(r *rand.Rand, s string) string {
	if r.Intn(4) == 0 && !strings.ContainsAny(s, "`\n") {
		return "`" + s + "`"
	}
	return fmt.Sprintf("%q", s)
}

func (e TExpr) text(r *rand.Rand) string {
	b := map[string]string{"dot": ".", "root": "$", "var": "$" + e.V}[e.O]
	for i, n := range e.P {
		if e.O != "dot" || i > 0 {
			b += "."
		}
		b += n
	}
	for _, f := range e.Fs {
		a := f.F
		switch f.F {
		case "default", "trimPrefix", "trimSuffix", "join", "eq":
			a += " " + quoteArg(r, f.X)
		case "replace", "ternary":
			a += " " + quoteArg(r, f.X) + " " + quoteArg(r, f.Y)
		}
		if r.Intn(3) > 0 {
			b = b + pick(r, []string{" | ", "|"}) + a
		} else {
			if strings.ContainsAny(b, " |") {
				b = "(" + b + ")"
			}
			b = a + " " + b
		}
	}
	return b
}

func tokens(ps []*Piece, r *rand.Rand) []token {
	var out []token
	act := func(s string) { out = append(out, token{text: s, action: true}) }
	for _, p := range ps {
		switch p.Op {
		case "lit":
			out = append(out, token{text: p.S, tl: p.TL, tr: p.TR})
		case "note":
			act("/*" + strings.ReplaceAll(p.S, "*/", "") + "*/")
		case "ref":
			act(p.E.text(r))
		case "let":
			act("$" + p.V + " := " + p.E.text(r))
		case "call":
			act(fmt.Sprintf("template %q %s", p.Name, p.E.text(r)))
		default:
			h := p.Op + " "
			if p.V != "" {
				h += "$" + p.V + " := "
			}
			act(h + p.E.text(r))
			out = append(out, tokens(p.A, r)...)
			if len(p.B) == 1 && p.B[0].Op == "if" && p.Op == "if" && r.Intn(2) == 0 {
				in := tokens(p.B, r)
				in[0].text = "else " + in[0].text
				out = append(out, in...)
				continue
			}
			if len(p.B) > 0 {
				act("else")
				out = append(out, tokens(p.B, r)...)
			}
			act("end")
		}
	}
	return out
}

func render(ts []token, r *rand.Rand) string {
	var b strings.Builder
	for i, t := range ts {
		if !t.action {
			b.WriteString(t.text)
			continue
		}
		l := i > 0 && !ts[i-1].action && ts[i-1].tr
		rr := i+1 < len(ts) && !ts[i+1].action && ts[i+1].tl
		sp := pick(r, []string{" ", ""})
		if strings.HasPrefix(t.text, "/*") {
			sp = ""
		}
		o, c := "{{"+sp, sp+"}}"
		if l {
			o = "{{- "
		}
		if rr {
			c = " -}}"
		}
		b.WriteString(o + t.text + c)
	}
	return b.String()
}

// safe says whether all literals can stand beside actions.
func (t *Tmpl) text(r *rand.Rand) string {
	s := ""
	for _, d := range t.Defs {
		ts := append([]token{{text: fmt.Sprintf("define %q", d.Name), action: true}}, tokens(d.Body, r)...)
		s += render(append(ts, token{text: "end", action: true}), r)
	}
	return s + render(tokens(t.Pieces, r), r)
}

// spread puts values into several files, later ones winning.
func (t *tgen) spread() []string {
	n := 1 + t.r.Intn(3)
	files := make([]*yaml.Node, n)
	for i := range files {
		files[i] = mapNode()
	}
	var split func(m *yaml.Node, into []*yaml.Node)
	split = func(m *yaml.Node, into []*yaml.Node) {
		for i := 0; i+1 < len(m.Content); i += 2 {
			k, v := m.Content[i].Value, m.Content[i+1]
			if v.Kind == yaml.MappingNode && t.pct(60) && !strings.HasPrefix(k, "v") {
				var sub []*yaml.Node
				for _, f := range into {
					x := mapNode()
					sub = append(sub, x)
					f.Content = append(f.Content, strNode(k), x)
				}
				split(v, sub)
				continue
			}
			at := t.r.Intn(len(into))
			into[at].Content = append(into[at].Content, strNode(k), v)
			for j := 0; j < at; j++ {
				if v.Kind == yaml.ScalarNode && v.Tag != "!!null" && t.pct(30) {
					into[j].Content = append(into[j].Content, strNode(k), pick(t.r, []*yaml.Node{strNode("decoy"), rawNode("!!int", "99"), mapNode(strNode("d"), strNode("e")), seqNode(strNode("e"))}))
				}
			}
			if v.Kind == yaml.SequenceNode && len(v.Content) > 1 && at > 0 && t.pct(30) && v.Content[0].Value != "tail" {
				// lists are appended to lists
				into[at].Content[len(into[at].Content)-1] = seqNode(v.Content[1:]...)
				into[at-1].Content = append(into[at-1].Content, strNode(k), seqNode(v.Content[0]))
			}
		}
	}
	split(t.vals, files)
	var out []string
	for _, f := range files {
		var clean func(m *yaml.Node)
		clean = func(m *yaml.Node) {
			var c []*yaml.Node
			for i := 0; i+1 < len(m.Content); i += 2 {
				v := m.Content[i+1]
				if v.Kind == yaml.MappingNode && !strings.HasPrefix(m.Content[i].Value, "v") {
					clean(v)
					if len(v.Content) == 0 {
						continue
					}
				}
				c = append(c, m.Content[i], v)
			}
			m.Content = c
		}
		clean(f)
		x := encode([]*yaml.Node{f}, 2)
		if t.pct(10) {
			x += "---\nignored: true\n"
		}
		out = append(out, x)
	}
	return out
}

var badSyntax = []string{"{{ .a", "{{ nope .a }}", "{{ if .a }}", "{{ end }}", "{{ $undefined }}", "{{ template }}", "{{ range }}{{ end }}"}

// templated makes a templated form of a scenario's instructions.
func templated(g *Gen, s *Scenario) (*Tmpl, string) {
	t := &tgen{r: g.r, vals: mapNode(), root: "dot", wrong: 1}
	if g.pct(15) {
		t.wrong = 12
	}
	if g.pct(40) {
		t.root = "root"
	}
	ls := strings.Split(strings.TrimSuffix(s.Instr, "\n"), "\n")
	tm := &Tmpl{ID: s.ID, OK: true, Pieces: t.lines(ls, 0), Values: []TValues{}}
	tm.Defs = t.defs
	if tm.Defs == nil {
		tm.Defs = []TDef{}
	}
	for i := range tm.Defs {
		tm.Defs[i].Body = merged(tm.Defs[i].Body)
	}
	text := tm.text(g.r)
	values := t.spread()
	if g.pct(4) {
		// an error in the template
		tm.OK = false
		ls := strings.Split(text, "\n")
		i := g.r.Intn(len(ls))
		ls[i] += pick(g.r, badSyntax)
		text = strings.Join(ls, "\n")
	}
	names := []string{"ins/values.yaml", "w/more.yaml", "ins/sub/last.txt"}
	for i, v := range values {
		if g.pct(2) {
			v = pick(g.r, []string{"a: [\n", "", "# nothing\n", "null\n", "- a\n", "text\n", "- a\n# c\n-\n# d\n{b: x}\n"})
		}
		docs, bad := parsed(v)
		// an error after the first document does not matter
		tm.Values = append(tm.Values, TValues{docs, bad})
		if s.Stdin == "" && v != "" && g.pct(8) {
			s.Stdin = v
			s.Values = append(s.Values, "-")
			continue
		}
		p := names[i]
		s.Files = append(s.Files, SFile{p, v})
		s.Values = append(s.Values, g.relTo(s.Cwd, p))
	}
	if g.pct(2) {
		tm.Values = append(tm.Values, TValues{[]*Node{}, true})
		s.Values = append(s.Values, "no-such-file.yaml")
	}
	return tm, text
}

func templates(c *check) error {
	n := 700
	if err := c.templateBatch(n, 0, "t"); err != nil {
		return err
	}
	for round := 1; c.thorough() && len(c.fails) == 0 && c.left() > 3*time.Minute; round++ {
		if err := c.templateBatch(1000, int64(round), fmt.Sprintf("t%d-", round)); err != nil {
			return err
		}
	}
	return nil
}

func (c *check) templateBatch(n int, salt int64, prefix string) error {
	g := &Gen{r: c.rng(salt), p: with(func(p *Profile) {
		p.MaxFiles, p.MaxOvs, p.Paths, p.AdHoc, p.AdInstr, p.InstrStdin, p.Dress = 2, 2, 10, 8, 100, 0, 0
	})}
	var scs, plain []*Scenario
	var tms []*Tmpl
	texts := map[string]string{}
	for i := 0; i < n; i++ {
		s := g.scenario(fmt.Sprintf("%s%d", prefix, i))
		if !s.HasInstr || strings.Contains(s.Instr, "{{") || strings.Contains(s.Instr, "}}") {
			continue
		}
		tm, text := templated(g, s)
		scs = append(scs, s)
		tms = append(tms, tm)
		texts[s.ID] = text
		// without values files the text is what it is
		if g.pct(12) {
			q := *s
			q.ID = s.ID + "-n"
			q.Values = nil
			q.Instr = text
			if g.pct(40) {
				q.Instr = s.Instr
			}
			q.Files = withFile(s.Files, "ins/instr.yaml", q.Instr)
			if q.known() {
				plain = append(plain, &q)
			}
		}
	}
	rendered, st, err := renderings(tms)
	if err != nil {
		return err
	}
	c.states += st.States
	c.distinct += st.Distinct
	var run []*Scenario
	failed := 0
	for _, s := range scs {
		x := rendered[s.ID]
		q := *s
		q.Files = withFile(s.Files, "ins/instr.yaml", texts[s.ID])
		if x.OK {
			q.Instr = x.Text
		} else {
			q.Broken = true
			failed++
		}
		if x.OK && !q.known() {
			continue
		}
		run = append(run, &q)
	}
	c.addPart("templates rendered by the specification", len(scs))
	c.addPart("templates with errors", failed)
	c.addPart("templated runs", len(run))
	c.addPart("runs with the template as literal instructions", len(plain))
	_, _, err = c.conform(append(run, plain...))
	return err
}

func withFile(fs []SFile, p, text string) []SFile {
	var out []SFile
	for _, f := range fs {
		if f.Path == p {
			f.Text = text
		}
		out = append(out, f)
	}
	return out
}

// known says whether the specification knows all paths in the instructions.
func (s *Scenario) known() bool {
	qt := map[string]bool{}
	for _, q := range s.QT {
		qt[q.T] = true
	}
	var y yaml.Node
	if yaml.Unmarshal([]byte(s.Instr), &y) != nil {
		return true
	}
	ok := true
	var leaf func(n *yaml.Node)
	leaf = func(n *yaml.Node) {
		if n.Kind == yaml.ScalarNode && !qt[n.Value] && n.Tag != "!!null" {
			ok = false
		}
		if n.Kind == yaml.AliasNode {
			ok = false
		}
		for _, x := range n.Content {
			leaf(x)
		}
	}
	walk(&y, func(n *yaml.Node) {
		if n.Kind == yaml.MappingNode {
			for i := 0; i+1 < len(n.Content); i += 2 {
				if k := n.Content[i].Value; k == "query" || k == "injectPath" {
					leaf(n.Content[i+1])
				}
			}
		}
	})
	return ok
}

type rendering struct {
	ID   string `json:"id"`
	OK   bool   `json:"ok"`
	Text string `json:"text"`
}

// renderings runs templates through the specification.
func renderings(ts []*Tmpl) (map[string]rendering, *TLCStats, error) {
	f, err := os.CreateTemp(workDir, "templates*.ndjson")
	if err != nil {
		return nil, nil, err
	}
	defer os.Remove(f.Name())
	for _, t := range ts {
		b, err := json.Marshal(t)
		if err != nil {
			return nil, nil, err
		}
		f.Write(append(b, '\n'))
	}
	f.Close()
	st, err := runTLC("ConfTemplate.tla", "ConfTemplate.cfg", workers, []string{"SCENARIOS=" + f.Name()}, 10*time.Minute)
	if err != nil {
		return nil, nil, err
	}
	if st.Code != 0 {
		return nil, nil, fmt.Errorf("TLC failed on the templates: %s", tail(st.Output, 3000))
	}
	res := map[string]rendering{}
	for _, l := range st.Lines {
		var x rendering
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			return nil, nil, err
		}
		res[x.ID] = x
	}
	if len(res) != len(ts) {
		return nil, nil, fmt.Errorf("the specification gave %d texts for %d templates", len(res), len(ts))
	}
	return res, st, nil
}
