// instr REPO OUT writes instrumented copies of the repository's sources to OUT and prints the
// entries of a go build overlay: a call of zz_vsync.P before every statement of the packages that
// handle requests, of zz_vsync.D before every statement of the packages they use for single steps, and zz_vsync in place of sync everywhere.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "zzverif/vsync"

type edit struct {
	off, end int
	text     string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	n := 0
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if info.IsDir() {
			if strings.HasPrefix(info.Name(), ".") && rel != "." || rel == "test" || rel == "example" || rel == "cmd" || rel == "devtools" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(info.Name(), ".pb.") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		dir := filepath.Dir(rel)
		deep := strings.HasPrefix(dir, "internal") && (strings.Contains(dir, "parser") || strings.Contains(dir, "utils")) || strings.HasPrefix(dir, "pkg/domain") || strings.HasPrefix(dir, "pkg/types") || strings.HasPrefix(dir, "pkg/policy_definition")
		stmts := dir == "." || strings.HasPrefix(dir, "internal") || deep
		call := "zz_vsync.P(); "
		if deep {
			call = "zz_vsync.D(); "
		}
		var es []edit
		off := func(pos token.Pos) int { return fs.Position(pos).Offset }
		for _, im := range f.Imports {
			if path, _ := strconv.Unquote(im.Path.Value); path == "sync" {
				text := strconv.Quote(mod)
				if im.Name == nil {
					text = "sync " + text
				}
				es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			}
		}
		points := 0
		if stmts {
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					o := off(s.Pos())
					es = append(es, edit{o, o, call})
					points++
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				inspectStmts(fd.Body, add)
			}
		}
		if len(es) == 0 {
			return nil
		}
		if points > 0 {
			o := off(f.Name.End())
			es = append(es, edit{o, o, "; import zz_vsync " + strconv.Quote(mod)})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
		var b bytes.Buffer
		last := 0
		for _, e := range es {
			if e.off < last {
				continue
			}
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		n++
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", n, info.Name()))
		if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
			return err
		}
		fmt.Printf(",%q: %q\n", p, dst)
		return nil
	})
}

// inspectStmts instruments the blocks below a statement of a clause
func inspectStmts(s ast.Stmt, add func([]ast.Stmt)) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.SwitchStmt:
			clauses(x.Body, add)
			return false
		case *ast.TypeSwitchStmt:
			clauses(x.Body, add)
			return false
		case *ast.SelectStmt:
			clauses(x.Body, add)
			return false
		}
		return true
	})
}

func clauses(b *ast.BlockStmt, add func([]ast.Stmt)) {
	for _, c := range b.List {
		var body []ast.Stmt
		switch cc := c.(type) {
		case *ast.CaseClause:
			body = cc.Body
		case *ast.CommClause:
			body = cc.Body
		}
		add(body)
		for _, s := range body {
			inspectStmts(s, add)
		}
	}
}
