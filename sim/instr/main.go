// Command instr instruments the packages under test for the simulator and
// writes a go build overlay. Usage: instr OUTDIR SRCDIR... It changes nothing
// in the repository.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	text string
	rank int
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(2)
}

// words writes the strings of the sources that may be names of files or
// variables: the simulated system offers such files and variables to the
// program.
func words(out string, dirs []string) {
	seen := map[string]bool{}
	for _, d := range dirs {
		files, err := filepath.Glob(filepath.Join(d, "*.go"))
		if err != nil {
			die(err)
		}
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
			if err != nil {
				die(err)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				if x, ok := n.(*ast.BasicLit); ok && x.Kind == token.STRING {
					s, err := strconv.Unquote(x.Value)
					if err != nil || strings.ContainsAny(s, " \n") { // (prose)
						return true
					}
					// what is around the verbs of a format
					for _, w := range strings.FieldsFunc(verbs.ReplaceAllString(s, "\n"), func(c rune) bool { return c <= ' ' || c > '~' }) {
						if len(w) > 1 && len(w) <= 40 {
							seen[w] = true
						}
					}
				}
				return true
			})
		}
	}
	l := []string{}
	for w := range seen {
		l = append(l, w)
	}
	sort.Strings(l)
	b, err := json.Marshal(l)
	if err != nil {
		die(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		die(err)
	}
}

var verbs = regexp.MustCompile(`%[-+# 0-9.]*[a-zA-Z]`)

func main() {
	if os.Args[1] == "-words" {
		words(os.Args[2], os.Args[3:])
		return
	}
	out := os.Args[1]
	dirs := os.Args[2:]
	overlay := map[string]string{}
	type unit struct {
		path string
		src  []byte
		f    *ast.File
		fs   *token.FileSet
	}
	var units []unit
	coarse := false
	for _, d := range dirs {
		files, err := filepath.Glob(filepath.Join(d, "*.go"))
		if err != nil {
			die(err)
		}
		sort.Strings(files)
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, err := os.ReadFile(p)
			if err != nil {
				die(err)
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die(err)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
					coarse = true
				case *ast.SelectorExpr: // sync.WaitGroup.Go, timers, ...
					id, _ := x.X.(*ast.Ident)
					switch x.Sel.Name {
					case "Go", "NewCond":
						coarse = true
					case "AfterFunc", "After", "Tick", "NewTimer", "NewTicker", "Sleep":
						coarse = coarse || id != nil && id.Name == "time"
					case "WithTimeout", "WithDeadline", "WithCancel":
						coarse = coarse || id != nil && id.Name == "context"
					}
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						coarse = true
					}
				}
				return true
			})
			units = append(units, unit{p, src, f, fs})
		}
	}
	points := 0
	for i, u := range units {
		var is []ins
		pos := func(p token.Pos) int { return u.fs.Position(p).Offset }
		add := func(p token.Pos, t string) { is = append(is, ins{pos(p), t, len(is)}) }
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				points++
				add(s.Pos(), "verifrt.Y(); ")
			}
		}
		clauses := map[*ast.BlockStmt]bool{} // bodies that hold clauses, not statements
		ast.Inspect(u.f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				clauses[x.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[x.Body] = true
			case *ast.SelectStmt:
				clauses[x.Body] = true
			case *ast.BlockStmt:
				stmts(x.List)
				if len(x.List) == 0 && !clauses[x] {
					points++
					add(x.Rbrace, "verifrt.Y(); ")
				}
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 1 && x.Ellipsis == token.NoPos {
					for _, a := range x.Args[1:] {
						add(a.Pos(), "verifrt.N(")
						is = append(is, ins{pos(a.End()), ")", -1})
					}
				}
			}
			return true
		})
		is = append(is, ins{pos(u.f.Name.End()), "; import verifrt \"radosim/rt\"", 0})
		for _, im := range u.f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" {
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				o, e := pos(im.Path.Pos()), pos(im.Path.End())
				is = append(is, ins{o, name + "\"radosim/simsync\" /*", 0}, ins{e, "*/", 0})
			}
		}
		sort.SliceStable(is, func(a, b int) bool {
			if is[a].off != is[b].off {
				return is[a].off < is[b].off
			}
			return is[a].rank < is[b].rank
		})
		var b strings.Builder
		last := 0
		for _, x := range is {
			b.Write(u.src[last:x.off])
			b.WriteString(x.text)
			last = x.off
		}
		b.Write(u.src[last:])
		b.WriteString("\nvar _ = verifrt.Y\n")
		if coarse && i == 0 {
			b.WriteString("func init() { verifrt.Coarse = true }\n")
		}
		dst := filepath.Join(out, fmt.Sprintf("%03d_%s", i, filepath.Base(u.path)))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			die(err)
		}
		overlay[u.path] = dst
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die(err)
	}
	j, _ = json.Marshal(map[string]any{"coarse": coarse, "points": points, "files": len(units)})
	if err := os.WriteFile(filepath.Join(out, "instr.json"), j, 0o644); err != nil {
		die(err)
	}
}
