// mutate writes one changed source file per mutation: mutate REPO OUT, with OUT/N/{overlay.json,file.go,what}.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var (
	repo, out string
	count     int
)

type edit struct {
	pos, end token.Pos
	text     string
	what     string
}

func main() {
	repo, out = os.Args[1], os.Args[2]
	var files []string
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/probe/") {
			files = append(files, p)
		}
		return nil
	})
	for _, f := range files {
		file(f)
	}
	fmt.Println(count)
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func file(path string) {
	fset := token.NewFileSet()
	text, _ := os.ReadFile(path)
	f, err := parser.ParseFile(fset, path, text, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var es []edit
	add := func(n ast.Node, t, what string) { es = append(es, edit{n.Pos(), n.End(), t, what}) }
	s := func(n ast.Node) string { return string(text[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
	ops := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.QUO: {"*"}, token.MUL: {"+"}, token.REM: {"/"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.IfStmt:
			add(n.Cond, "!("+s(n.Cond)+")", "negate")
			add(n.Cond, "false && ("+s(n.Cond)+")", "never")
			add(n.Cond, "true || ("+s(n.Cond)+")", "always")
			if n.Else != nil {
				add(n.Else, "{}", "no else")
			}
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				x := edit{n.OpPos, n.OpPos + token.Pos(len(n.Op.String())), o, "operator"}
				es = append(es, x)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n, s(n.X), "left only")
				add(n, s(n.Y), "right only")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, s(n.X), "no not")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n, strconv.Itoa(v+1), "plus one")
					if v > 0 {
						add(n, strconv.Itoa(v-1), "minus one")
					}
				}
			case token.STRING:
				if n.Value != `""` {
					add(n, `""`, "empty text")
				} else {
					add(n, `"x"`, "some text")
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n, "false", "false")
			} else if n.Name == "false" {
				add(n, "true", "true")
			}
		case *ast.BlockStmt:
			for i, st := range n.List {
				del(&es, st, s)
				if i+1 < len(n.List) {
					a, b := n.List[i], n.List[i+1]
					if !defines(a) && !defines(b) && !ends(a) && !ends(b) {
						es = append(es, edit{a.Pos(), b.End(), s(b) + "\n" + s(a), "swap"})
					}
				}
			}
		case *ast.CaseClause:
			for _, st := range n.Body {
				del(&es, st, s)
			}
			if len(n.List) > 0 && len(n.Body) > 0 {
				es = append(es, edit{n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case"})
			}
			if len(n.List) > 1 {
				es = append(es, edit{n.List[0].Pos(), n.List[0].End() + 1, "", "one case less"})
				es = append(es, edit{n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End(), "", "last case less"})
			}
		case *ast.RangeStmt:
			b := n.Body
			es = append(es, edit{b.Rbrace, b.Rbrace, "\nbreak\n", "only first"})
			es = append(es, edit{b.Rbrace, b.Rbrace, "\nif true { break }\n", "only first if"})
			if id, ok := n.Key.(*ast.Ident); ok && id.Name != "_" {
				es = append(es, edit{b.Lbrace + 1, b.Lbrace + 1, "\nif " + id.Name + " == 0 { continue }\n", "skip first"})
				es = append(es, edit{b.Lbrace + 1, b.Lbrace + 1, "\nif " + id.Name + " == 1 { continue }\n", "skip second"})
				es = append(es, edit{b.Lbrace + 1, b.Lbrace + 1, "\nif " + id.Name + " == 2 { break }\n", "stop at third"})
			}
		case *ast.ForStmt:
			b := n.Body
			es = append(es, edit{b.Rbrace, b.Rbrace, "\nif true { break }\n", "only first"})
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				last := n.Results[k-1]
				if s(last) != "nil" && k > 0 && strings.Contains(strings.ToLower(s(last)), "err") {
					add(last, "nil", "no error")
				}
			}
		case *ast.CallExpr:
			if len(n.Args) == 2 {
				es = append(es, edit{n.Args[0].Pos(), n.Args[1].End(), s(n.Args[1]) + ", " + s(n.Args[0]), "arguments swapped"})
			}
			if len(n.Args) == 1 && !n.Ellipsis.IsValid() {
				add(n, s(n.Args[0]), "call dropped")
			}
		case *ast.StarExpr:
			return true
		case *ast.SliceExpr:
			if n.Low != nil && n.High == nil {
				add(n, s(n.X), "no slice")
			}
		}
		return true
	})
	for _, e := range es {
		a, b := fset.Position(e.pos).Offset, fset.Position(e.end).Offset
		t := string(text[:a]) + e.text + string(text[b:])
		d := filepath.Join(out, strconv.Itoa(count))
		os.MkdirAll(d, 0755)
		p := filepath.Join(d, filepath.Base(path))
		os.WriteFile(p, []byte(t), 0644)
		j, _ := json.Marshal(map[string]any{"Replace": map[string]string{path: p}})
		os.WriteFile(filepath.Join(d, "overlay.json"), j, 0644)
		old := string(text[a:b])
		if len(old) > 200 {
			old = old[:200] + "..."
		}
		nw := e.text
		if len(nw) > 200 {
			nw = nw[:200] + "..."
		}
		os.WriteFile(filepath.Join(d, "what"), []byte(fmt.Sprintf("%s:%d %s: %s -> %s\n", strings.TrimPrefix(path, repo+"/"), fset.Position(e.pos).Line, e.what, old, nw)), 0644)
		count++
	}
}

func defines(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return s.Tok == token.DEFINE
	case *ast.DeclStmt:
		return true
	}
	return false
}

func ends(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	}
	return false
}

func del(es *[]edit, st ast.Stmt, s func(ast.Node) string) {
	switch st := st.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		*es = append(*es, edit{st.Pos(), st.End(), "", "deleted"})
	case *ast.AssignStmt:
		if st.Tok != token.DEFINE {
			*es = append(*es, edit{st.Pos(), st.End(), "", "deleted"})
		} else {
			for _, l := range st.Lhs {
				_ = l
			}
		}
	case *ast.BranchStmt:
		*es = append(*es, edit{st.Pos(), st.End(), "", "deleted"})
		if st.Label == nil && st.Tok == token.CONTINUE {
			*es = append(*es, edit{st.Pos(), st.End(), "break", "break"})
		} else if st.Label == nil && st.Tok == token.BREAK {
			*es = append(*es, edit{st.Pos(), st.End(), "continue", "continue"})
		}
	}
}
