// Command verifinstr writes simulation copies of the repository's non-test Go files and an
// overlay file for "go build -overlay" that puts them in place of the originals.
//
// In each copy a call of verifrt.Y() (the simulator's scheduling and crash point) precedes every
// statement, "sync" and "crypto/sha256" are replaced by the simulator's shims, and go statements start threads of the
// simulator's scheduler. The text stays on its original lines. The repository is only read.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replaced range, off == end for an insertion
	text     string
	seq      int
}

var (
	nStmts, nFiles, nGo, nSync int
	unsupported                []string
)

func main() {
	repo := flag.String("repo", "/repo", "repository to instrument")
	out := flag.String("out", "", "directory for the copies and overlay.json")
	exports := flag.String("export", "", "directory with extra files, <package dir with __ for />.go")
	std := flag.String("std", "", "directory with replacements of standard library files, <dir>__<file>")
	goroot := flag.String("goroot", "", "GOROOT, for -std")
	flag.Parse()
	if *out == "" {
		fail("need -out")
	}
	replace := map[string]string{}
	var files []string
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if path != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	if err != nil {
		fail(err.Error())
	}
	sort.Strings(files)

	// Blocking constructs that the scheduler does not control switch preemption off
	// (the simulator then runs operations one after another), everywhere or nowhere.
	parsed := map[string]*ast.File{}
	srcs := map[string][]byte{}
	fset := token.NewFileSet()
	for _, path := range files {
		src, err := os.ReadFile(path)
		if err != nil {
			fail(err.Error())
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fail(err.Error())
		}
		parsed[path], srcs[path] = f, src
		ast.Inspect(f, func(n ast.Node) bool {
			bad := ""
			switch v := n.(type) {
			case *ast.SendStmt:
				bad = "channel send"
			case *ast.SelectStmt:
				bad = "select"
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					bad = "channel receive"
				}
			case *ast.ChanType:
				bad = "channel"
			}
			if bad != "" {
				unsupported = append(unsupported, fmt.Sprintf("%s: %s", fset.Position(n.Pos()), bad))
			}
			return true
		})
	}
	for _, path := range files {
		rel, _ := filepath.Rel(*repo, path)
		dst := filepath.Join(*out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			fail(err.Error())
		}
		text := instrument(fset, parsed[path], srcs[path], len(unsupported) == 0)
		if err := os.WriteFile(dst, text, 0o644); err != nil {
			fail(err.Error())
		}
		replace[path] = dst
		nFiles++
	}
	if *exports != "" {
		ents, err := os.ReadDir(*exports)
		if err != nil {
			fail(err.Error())
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			dir := strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".go"), "__", "/")
			dst := filepath.Join(*out, "src", dir, "zz_verif_export.go")
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				fail(err.Error())
			}
			text := export(fset, filepath.Join(*exports, e.Name()), filepath.Join(*repo, dir), parsed)
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				fail(err.Error())
			}
			replace[filepath.Join(*repo, dir, "zz_verif_export.go")] = dst
		}
	}
	write(filepath.Join(*out, "overlay.json"), replace)
	if *std != "" {
		race := map[string]string{}
		for k, v := range replace {
			race[k] = v
		}
		ents, err := os.ReadDir(*std)
		if err != nil {
			fail(err.Error())
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go.txt") {
				continue
			}
			name := strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".txt"), "__", "/")
			race[filepath.Join(*goroot, "src", name)] = filepath.Join(*std, e.Name())
		}
		write(filepath.Join(*out, "overlay-race.json"), race)
	}
	info, _ := json.Marshal(map[string]any{"files": nFiles, "yield_points": nStmts, "go_statements": nGo, "sync_imports": nSync, "unsupported": unsupported})
	if err := os.WriteFile(filepath.Join(*out, "instr.json"), info, 0o644); err != nil {
		fail(err.Error())
	}
}

func write(path string, replace map[string]string) {
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail(err.Error())
	}
}

func fail(msg string) {
	fmt.Fprintln(os.Stderr, "verifinstr:", msg)
	os.Exit(2)
}

func isConst(e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.UnaryExpr:
		return v.Op == token.SUB && isConst(v.X)
	case *ast.Ident:
		return v.Name == "nil" || v.Name == "true" || v.Name == "false"
	}
	return false
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, sched bool) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }
	points := 0
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), off(s.Pos()), "verifrt.Y();")
			points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.CallExpr:
			if sel, ok := v.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Go" {
				nGo++ // WaitGroup.Go
			}
		case *ast.SwitchStmt:
			for _, c := range v.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range v.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range v.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			ok := true
			for _, s := range v.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					ok = false
				}
			}
			if ok {
				list(v.List)
			}
		case *ast.ForStmt:
			if len(v.Body.List) == 0 {
				add(off(v.Body.Lbrace)+1, off(v.Body.Lbrace)+1, "verifrt.Y();")
				points++
			}
		case *ast.GoStmt:
			nGo++
			// go f(a, b)  =>  verifrt.Go(func(f, a, b) func() { ... }): evaluate now, run later.
			call := v.Call
			if lit, isLit := call.Fun.(*ast.FuncLit); isLit && len(call.Args) == 0 {
				add(off(v.Pos()), off(lit.Pos()), "verifrt.Go(")
				add(off(lit.End()), off(call.End()), ")")
				return true
			}
			// Constants stay in place, their type depends on the parameter.
			names, args := []string{"veriff"}, []string{}
			add(off(v.Pos()), off(call.Fun.Pos()), "")
			start := len(edits) - 1
			prev := off(call.Fun.End())
			for i, a := range call.Args {
				if isConst(a) {
					args = append(args, string(src[off(a.Pos()):off(a.End())]))
					add(prev, off(a.End()), "")
				} else {
					name := fmt.Sprintf("verifa%d", i)
					names, args = append(names, name), append(args, name)
					add(prev, off(a.Pos()), ", ")
				}
				prev = off(a.End())
			}
			ell := ""
			if call.Ellipsis.IsValid() {
				ell = "..."
			}
			edits[start].text = "{ " + strings.Join(names, ", ") + " := "
			add(prev, off(call.End()), "; verifrt.Go(func() { veriff("+strings.Join(args, ", ")+ell+") }) }")
		}
		return true
	})
	nStmts += points
	if sched {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" {
				nSync++
				name := ""
				if im.Name == nil {
					name = "sync "
				}
				add(off(im.Path.Pos()), off(im.Path.End()), name+`"verifsim/rt/vsync"`)
			}
		}
	}
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "crypto/sha256" {
			name := ""
			if im.Name == nil {
				name = "sha256 "
			}
			add(off(im.Path.Pos()), off(im.Path.End()), name+`"verifsim/rt/vsha"`)
		}
	}
	head := `; import verifrt "verifsim/rt"`
	tail := "\nvar _ = verifrt.Y\n"
	if !sched {
		tail += "func init() { verifrt.Unsupported = true }\n"
	}
	add(off(f.Name.End()), off(f.Name.End()), head)
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions first
		if (edits[i].off == edits[i].end) != (edits[j].off == edits[j].end) {
			return edits[i].off == edits[i].end
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return []byte(b.String())
}

// export returns the text of an export file. A function marked "//verif:optional NAME" is given a
// body that panics when the package has no function NAME with the same parameters and results.
func export(fset *token.FileSet, path, dir string, parsed map[string]*ast.File) []byte {
	text, err := os.ReadFile(path)
	if err != nil {
		fail(err.Error())
	}
	f, err := parser.ParseFile(fset, path, text, parser.ParseComments)
	if err != nil {
		fail(err.Error())
	}
	for i := len(f.Decls) - 1; i >= 0; i-- {
		fn, ok := f.Decls[i].(*ast.FuncDecl)
		if !ok || fn.Doc == nil {
			continue
		}
		for _, c := range fn.Doc.List {
			name, ok := strings.CutPrefix(c.Text, "//verif:optional ")
			if !ok {
				continue
			}
			found := false
			for p, g := range parsed {
				if filepath.Dir(p) != dir {
					continue
				}
				for _, d := range g.Decls {
					if h, ok := d.(*ast.FuncDecl); ok && h.Recv == nil && h.Name.Name == strings.TrimSpace(name) && signature(h.Type) == signature(fn.Type) {
						found = true
					}
				}
			}
			if !found {
				a, b := fset.Position(fn.Body.Lbrace).Offset, fset.Position(fn.Body.Rbrace).Offset
				text = append(append(append([]byte{}, text[:a+1]...), ` panic("verif: not available") `...), text[b:]...)
			}
		}
	}
	return text
}

func signature(t *ast.FuncType) string {
	var s []string
	for _, l := range []*ast.FieldList{t.Params, t.Results} {
		if l != nil {
			for _, x := range l.List {
				for i := 0; i < max(1, len(x.Names)); i++ {
					s = append(s, types.ExprString(x.Type))
				}
			}
		}
		s = append(s, "->")
	}
	return strings.Join(s, " ")
}
