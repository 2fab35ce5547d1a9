package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"gopkg.in/yaml.v3"
)

// Node is a node of the specification's trees (module Tree).
type Node struct {
	K  string  `json:"k"`
	T  string  `json:"t"`
	V  string  `json:"v"`
	C  []*Node `json:"c"`
	H  string  `json:"h"`
	L  string  `json:"l"`
	F  string  `json:"f"`
	A  string  `json:"a"`
	ID []int   `json:"id"`
	Y  int     `json:"y,omitempty"` // style, in what is to be written
}

var newID = []int{0}

func noNode() *Node { return &Node{K: "0", C: []*Node{}, ID: newID} }

// parseDocs reads all documents of a text as yot does.
func parseDocs(text string) (docs []*yaml.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r) // the library panics on some invalid texts
		}
	}()
	dc := yaml.NewDecoder(strings.NewReader(text))
	for {
		var y yaml.Node
		err = dc.Decode(&y)
		if errors.Is(err, io.EOF) {
			return docs, nil
		}
		if err != nil {
			return docs, err
		}
		docs = append(docs, &y)
	}
}

// decodeFirst reads the first document of a text.
func decodeFirst(text string, y *yaml.Node) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return yaml.NewDecoder(strings.NewReader(text)).Decode(y)
}

func toTrees(docs []*yaml.Node) []*Node {
	r := []*Node{}
	for _, d := range docs {
		labels := map[*yaml.Node]string{}
		collect(d, labels)
		r = append(r, toTree(d, labels))
	}
	return r
}

func collect(n *yaml.Node, labels map[*yaml.Node]string) {
	if n.Kind == yaml.AliasNode {
		if labels[n.Alias] == "" {
			labels[n.Alias] = fmt.Sprintf("L%d", len(labels)+1)
		}
		return
	}
	for _, c := range n.Content {
		collect(c, labels)
	}
}

var kinds = map[yaml.Kind]string{yaml.DocumentNode: "d", yaml.MappingNode: "m", yaml.SequenceNode: "s", yaml.ScalarNode: "v", yaml.AliasNode: "a", 0: "0"}

func toTree(n *yaml.Node, labels map[*yaml.Node]string) *Node {
	t := &Node{K: kinds[n.Kind], V: n.Value, C: []*Node{}, H: n.HeadComment, L: n.LineComment, F: n.FootComment, A: labels[n], ID: newID}
	switch n.Kind {
	case yaml.AliasNode:
		t.V = labels[n.Alias]
	case yaml.DocumentNode, 0:
	default:
		t.T = n.ShortTag()
	}
	for _, c := range n.Content {
		t.C = append(t.C, toTree(c, labels))
	}
	return t
}

// resolved gives the data a document stands for: aliases replaced, no comments.
func resolved(n *yaml.Node) *yaml.Node { return resolvedIn(n, 0) }

func resolvedIn(n *yaml.Node, depth int) *yaml.Node {
	if depth > 200 {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: "<recursive>"}
	}
	if n.Kind == yaml.AliasNode {
		return resolvedIn(n.Alias, depth+1)
	}
	c := &yaml.Node{Kind: n.Kind, Tag: n.ShortTag(), Value: n.Value}
	for _, x := range n.Content {
		c.Content = append(c.Content, resolvedIn(x, depth+1))
	}
	return c
}

// sameAliases tells where an alias should be in the output and is not, or is and should not be; or where it stands for
// another node than it should.
func sameAliases(e *Node, a *yaml.Node, anchors map[string]*yaml.Node, path string) string {
	if label, alias := strings.CutPrefix(e.A, "*"); alias {
		if a.Kind != yaml.AliasNode {
			return fmt.Sprintf("at %s: expected an alias, got %s", path, brief(resolved(a)))
		}
		if anchors[label] != a.Alias {
			return fmt.Sprintf("at %s: the alias stands for another node", path)
		}
		return ""
	}
	if a.Kind == yaml.AliasNode {
		return fmt.Sprintf("at %s: an alias, expected %s", path, briefTree(e))
	}
	if e.A != "" {
		anchors[e.A] = a
	}
	for i := range e.C {
		if i >= len(a.Content) {
			break
		}
		if d := sameAliases(e.C[i], a.Content[i], anchors, path+"/"+fmt.Sprint(i)); d != "" {
			return d
		}
	}
	return ""
}

// sameData compares an expected tree with what was read from the output.
func sameData(e *Node, a *yaml.Node, path string) string {
	if e.K == "0" {
		if a.Kind == yaml.ScalarNode && a.Tag == "!!null" {
			return ""
		}
		return fmt.Sprintf("at %s: expected null, got %s", path, brief(a))
	}
	if kinds[a.Kind] != e.K {
		return fmt.Sprintf("at %s: expected %s, got %s", path, briefTree(e), brief(a))
	}
	if e.K != "d" && shortTag(e) != a.Tag {
		return fmt.Sprintf("at %s: expected type %s of %s, got %s", path, shortTag(e), briefTree(e), brief(a))
	}
	if e.K == "v" && e.V != a.Value {
		return fmt.Sprintf("at %s: expected %s, got %s", path, briefTree(e), brief(a))
	}
	if len(e.C) != len(a.Content) {
		return fmt.Sprintf("at %s: expected %d children in %s, got %d in %s", path, len(e.C), briefTree(e), len(a.Content), brief(a))
	}
	for i := range e.C {
		p := path
		switch e.K {
		case "m":
			if i%2 == 1 {
				p += "." + e.C[i-1].V
			} else {
				p += fmt.Sprintf(".~%s", e.C[i].V)
			}
		case "s":
			p += fmt.Sprintf("[%d]", i)
		}
		if d := sameData(e.C[i], a.Content[i], p); d != "" {
			return d
		}
	}
	return ""
}

func shortTag(e *Node) string {
	if e.T != "" {
		return (&yaml.Node{Kind: yaml.ScalarNode, Tag: e.T, Value: e.V}).ShortTag()
	}
	k := yaml.ScalarNode
	switch e.K {
	case "m":
		k = yaml.MappingNode
	case "s":
		k = yaml.SequenceNode
	}
	return (&yaml.Node{Kind: k, Value: e.V}).ShortTag()
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func brief(a *yaml.Node) string {
	b, err := yaml.Marshal(a)
	if err != nil {
		return "?"
	}
	return clip(fmt.Sprintf("%q", strings.TrimSpace(string(b))))
}

func briefTree(e *Node) string { return brief(fromTree(e)) }

// fromTree builds the node that yot would write for an expected tree.
func fromTree(e *Node) *yaml.Node {
	n := &yaml.Node{Value: e.V, HeadComment: e.H, LineComment: e.L, FootComment: e.F, Tag: e.T, Style: yaml.Style(e.Y)}
	switch e.K {
	case "d":
		n.Kind = yaml.DocumentNode
	case "m":
		n.Kind = yaml.MappingNode
	case "s":
		n.Kind = yaml.SequenceNode
	case "v":
		n.Kind = yaml.ScalarNode
	case "a":
		n.Kind = yaml.AliasNode
	}
	for _, c := range e.C {
		n.Content = append(n.Content, fromTree(c))
	}
	return n
}

var errAliases = errors.New("the names of anchors are not part of the specification")

func (e *Node) aliased() bool {
	if strings.HasPrefix(e.A, "*") {
		return true
	}
	for _, c := range e.C {
		if c.aliased() {
			return true
		}
	}
	return false
}

// emitted is the text of one file's output for the expected documents.
func emitted(docs []*Node, indent int) (text string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	for _, d := range docs {
		if d.aliased() {
			return "", errAliases
		}
	}
	b := new(bytes.Buffer)
	b.WriteString("---\n")
	ye := yaml.NewEncoder(b)
	ye.SetIndent(indent)
	for _, d := range docs {
		if err := ye.Encode(fromTree(d)); err != nil {
			return "", err
		}
	}
	if err := ye.Close(); err != nil {
		return "", err
	}
	return b.String(), nil
}

// wide gives every key and value of a document for building queries: the tree is walked with its path.
func walk(n *yaml.Node, f func(n *yaml.Node)) {
	f(n)
	for _, c := range n.Content {
		walk(c, f)
	}
}
