// Command transform puts a scheduling point before every statement of a Go file and replaces its locks, its buffered reader and its source
// of bytes by those of sched.go, so that the interleavings of its callers can be decided.
package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

func die(err error) {
	if err != nil {
		panic(err)
	}
}

func point() ast.Stmt { return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifPoint")}} }

func weave(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, point(), s)
	}
	return out
}

var swaps = map[string]map[string]string{
	"sync":        {"Mutex": "verifMutex", "RWMutex": "verifMutex", "Once": "verifOnce"},
	"bufio":       {"NewReaderSize": "verifReaderSize", "NewReader": "verifReader"},
	"crypto/rand": {"Reader": "verifSource", "Read": "verifRead"},
}
var keep = map[string]string{"sync": "Locker", "bufio": "Reader", "crypto/rand": ""}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, 0)
	die(err)
	names := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p
		if p == "crypto/rand" {
			n = "rand"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		if swaps[p] != nil {
			names[n] = p
		}
	}
	var reset bytes.Buffer
	replace := func(e ast.Expr) ast.Expr {
		if s, ok := e.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil && names[x.Name] != "" {
				if to := swaps[names[x.Name]][s.Sel.Name]; to != "" {
					return ast.NewIdent(to)
				}
			}
		}
		return e
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ValueSpec:
			x.Type = opt(x.Type, replace)
			for i := range x.Values {
				x.Values[i] = replace(x.Values[i])
			}
		case *ast.Field:
			x.Type = opt(x.Type, replace)
		case *ast.StarExpr:
			x.X = replace(x.X)
		case *ast.UnaryExpr:
			x.X = replace(x.X)
		case *ast.CompositeLit:
			x.Type = opt(x.Type, replace)
		case *ast.ArrayType:
			x.Elt = replace(x.Elt)
		case *ast.CallExpr:
			x.Fun = replace(x.Fun)
			for i := range x.Args {
				x.Args[i] = replace(x.Args[i])
			}
		case *ast.AssignStmt:
			for i := range x.Rhs {
				x.Rhs[i] = replace(x.Rhs[i])
			}
		}
		return true
	})
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, n := range v.Names {
					if n.Name == "_" {
						continue
					}
					if len(v.Values) == len(v.Names) {
						reset.WriteString("\t" + n.Name + " = ")
						die(printer.Fprint(&reset, fset, v.Values[i]))
						reset.WriteString("\n")
					} else if len(v.Values) == 0 {
						reset.WriteString("\t{\n\t\tvar z ")
						die(printer.Fprint(&reset, fset, v.Type))
						reset.WriteString("\n\t\t" + n.Name + " = z\n\t}\n")
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			return x.Name.Name != "init"
		case *ast.BlockStmt:
			x.List = weave(x.List)
		case *ast.CaseClause:
			x.Body = weave(x.Body)
		case *ast.CommClause:
			x.Body = weave(x.Body)
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, func(n ast.Node) bool { return true })
			}
		}
		return true
	})
	// a switch or select holds clauses, not statements
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			b = x.Body
		case *ast.TypeSwitchStmt:
			b = x.Body
		case *ast.SelectStmt:
			b = x.Body
		}
		if b != nil {
			var out []ast.Stmt
			for _, s := range b.List {
				if _, is := s.(*ast.ExprStmt); !is {
					out = append(out, s)
				}
			}
			b.List = out
		}
		return true
	})
	var out bytes.Buffer
	// positions would let the printer join lines
	die(printer.Fprint(&out, token.NewFileSet(), f))
	for n, p := range names {
		switch p {
		case "sync":
			out.WriteString("\nvar _ " + n + ".Locker\n")
		case "bufio":
			out.WriteString("\nvar _ *" + n + ".Reader\n")
		case "crypto/rand":
			out.WriteString("\nvar _ = " + n + ".Int\n")
		}
	}
	out.WriteString("\n// VerifReset puts the package in the state it starts in.\nfunc VerifReset() {\n" + reset.String() + "}\n")
	die(os.WriteFile(os.Args[2], out.Bytes(), 0o644))
}

func opt(e ast.Expr, f func(ast.Expr) ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return f(e)
}
