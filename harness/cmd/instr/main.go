// Command instr weaves calls of yield.P into copies of the library's sources and writes a go build overlay. The
// calls are put in front of statements, on the same line, so line numbers stay those of the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var builtins = map[string]bool{"len": true, "cap": true, "append": true, "make": true, "new": true, "copy": true,
	"panic": true, "byte": true, "uint": true, "int": true, "uint64": true, "string": true, "min": true, "max": true}

// interesting reports whether a statement itself (not the blocks nested in it) touches something shared.
func interesting(s ast.Stmt) bool {
	found := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		if found {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt, *ast.ReturnStmt:
			found = true
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
				return false
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && builtins[id.Name] {
				return true
			}
			switch x.Fun.(type) {
			case *ast.ArrayType, *ast.ParenExpr:
				return true
			}
			found = true
			return false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if _, ok := l.(*ast.SelectorExpr); ok {
					found = true
				}
				if ix, ok := l.(*ast.IndexExpr); ok {
					if _, ok := ix.X.(*ast.SelectorExpr); ok {
						found = true
					}
				}
			}
		case *ast.IncDecStmt:
			if _, ok := x.X.(*ast.SelectorExpr); ok {
				found = true
			}
		case *ast.IfStmt:
			if _, ok := x.Cond.(*ast.SelectorExpr); ok {
				found = true
			}
		}
		return true
	}
	switch x := s.(type) {
	case *ast.ForStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.RangeStmt:
		ast.Inspect(x.X, visit)
		return found
	case *ast.SelectStmt:
		return true
	case *ast.LabeledStmt:
		return false
	}
	ast.Inspect(s, visit)
	return found
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()

	replace := map[string]string{}
	var sites []string

	for _, dir := range []string{".", "kademlia", "gossip"} {
		files, err := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		if err != nil {
			panic(err)
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr: left as it is:", err) // the compiler will report it
				continue
			}
			off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
			type ins struct {
				at   int
				text string
			}
			var edits []ins
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if !interesting(s) {
						continue
					}
					pos := fset.PositionFor(s.Pos(), false)
					rel, _ := filepath.Rel(*repo, f)
					edits = append(edits, ins{pos.Offset, fmt.Sprintf("verifyield_.P(%d);", len(sites))})
					sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
				}
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					if x.Body == nil || x.Name.Name == "init" {
						return false
					}
				case *ast.BlockStmt:
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
			if len(edits) == 0 {
				continue
			}
			edits = append(edits, ins{off(file.Name.End()), `;import verifyield_ "verif.test/h/yield"`})
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
			// A switch's BlockStmt lists its clauses, which are not plain statements: interesting() never picks them.
			var b strings.Builder
			last := 0
			for _, e := range edits {
				b.Write(src[last:e.at])
				b.WriteString(e.text)
				last = e.at
			}
			b.Write(src[last:])
			dst := filepath.Join(*out, "src", dir, filepath.Base(f))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				panic(err)
			}
			abs, _ := filepath.Abs(f)
			replace[abs] = dst
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		panic(err)
	}
	j, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), j, 0o644); err != nil {
		panic(err)
	}
}
