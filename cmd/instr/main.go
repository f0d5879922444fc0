// Command instr writes instrumented copies of the packages under test: a call of
// the scheduler before each statement, the standard package sync replaced, and
// a function that resets all package-level variables.
//
//	instr [-nosync] REPO OUTDIR OVERLAY.json GO.MOD
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	args := os.Args[1:]
	nosync := false
	if args[0] == "-nosync" {
		nosync = true
		args = args[1:]
	}
	repo, out, overlay, gomod := args[0], args[1], args[2], args[3]
	repl := map[string]string{filepath.Join(repo, "go.mod"): gomod}
	spawns := false
	for _, pkg := range []string{".", "raster", "truetype"} {
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		check(err)
		sort.Strings(files)
		nInit := 0
		var resets []string
		var texts []string
		var names []string
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			text, reset, goes := instrument(f, src, len(names), &nInit, nosync)
			if text == "" {
				continue
			}
			spawns = spawns || goes
			texts = append(texts, text)
			names = append(names, f)
			resets = append(resets, reset)
		}
		for i, f := range names {
			t := texts[i]
			if i == 0 {
				t += "\n\n// VerifReset resets all package-level variables.\nfunc VerifReset() {\n"
				for k := 0; k < 2; k++ { // Twice, in case that one depends on another.
					for _, r := range resets {
						t += "\t" + r + "()\n"
					}
				}
				for k := 0; k < nInit; k++ {
					t += fmt.Sprintf("\tverifInit%d()\n", k)
				}
				t += "}\n"
			}
			dst := filepath.Join(out, strings.ReplaceAll(pkg, ".", "root")+"_"+filepath.Base(f))
			check(os.WriteFile(dst, []byte(t), 0o644))
			repl[f] = dst
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	check(err)
	check(os.WriteFile(overlay, b, 0o644))
	if spawns {
		fmt.Println("spawns")
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

type insertion struct {
	off  int
	text string
	del  int // Bytes to replace.
}

func instrument(name string, src []byte, k int, nInit *int, nosync bool) (text, reset string, spawns bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)
	for _, c := range f.Comments {
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:build") && strings.Contains(l.Text, "ignore") {
				return "", "", false
			}
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ins []insertion
	ins = append(ins, insertion{off: off(f.Name.End()), text: `; import vsched "verif/sched"`})
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins = append(ins, insertion{off: off(s.Pos()), text: "vsched.Y(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.GoStmt:
			spawns = true
		}
		return true
	})
	if !nosync {
		for _, s := range f.Imports {
			if s.Path.Value == `"sync"` {
				t := `"verif/sched/sync"`
				ins = append(ins, insertion{off: off(s.Path.Pos()), text: t, del: len(s.Path.Value)})
			}
		}
	}
	reset = fmt.Sprintf("verifReset%d", k)
	var body strings.Builder
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				nm := fmt.Sprintf("verifInit%d", *nInit)
				*nInit++
				ins = append(ins, insertion{off: off(d.Name.Pos()), text: nm, del: len("init")})
				body.WriteString("")
				text += fmt.Sprintf("\nfunc init() { %s() }\n", nm)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				blank := true
				for _, n := range v.Names {
					if n.Name != "_" {
						blank = false
					}
				}
				if blank {
					continue
				}
				switch {
				case len(v.Values) == 0:
					for _, n := range v.Names {
						if n.Name != "_" {
							fmt.Fprintf(&body, "\t{ var z %s; %s = z }\n", str(v.Type), n.Name)
						}
					}
				case len(v.Values) == len(v.Names):
					for i, n := range v.Names {
						if n.Name != "_" {
							fmt.Fprintf(&body, "\t%s = %s\n", n.Name, str(v.Values[i]))
						}
					}
				default:
					var ns []string
					for _, n := range v.Names {
						ns = append(ns, n.Name)
					}
					fmt.Fprintf(&body, "\t%s = %s\n", strings.Join(ns, ", "), str(v.Values[0]))
				}
			}
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	at := 0
	for _, x := range ins {
		b.Write(src[at:x.off])
		b.WriteString(x.text)
		at = x.off + x.del
	}
	b.Write(src[at:])
	fmt.Fprintf(&b, "\n\nvar _ = vsched.Y\n%s\nfunc %s() {\n%s}\n", text, reset, body.String())
	return b.String(), reset, spawns
}
