package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const zsimPath = "github.com/madkins23/go-slog/internal/zsim"

// replaced identifiers, by import path: os.Open becomes zsim.Open and so on.
var replaced = map[string]map[string]string{
	"sync": {"Pool": "Pool"},
	"os": {"Open": "Open", "ReadFile": "ReadFile", "Exit": "Exit", "Stdout": "Stdout", "Stderr": "Stderr",
		"Stdin": "Stdin", "File": "File"},
	"fmt":       {"Printf": "Printf", "Println": "Println", "Print": "Print"},
	"time":      {"Sleep": "Sleep"},
	"math/rand": {"Intn": "Intn"},
}

// keep makes an import used after the replacement.
var keep = map[string]string{
	"sync":      "var _ %s.Locker",
	"os":        "var _ = %s.Getpid",
	"fmt":       "var _ = %s.Sprint",
	"time":      "var _ %s.Duration",
	"math/rand": "var _ = %s.Int",
}

type edit struct {
	off  int
	end  int // replaced range [off,end)
	text string
	seq  int
}

type rewriter struct {
	nextSite int
	sites    []string // file:line of every site
}

// options of one package.
type pkgOpts struct {
	rename   string            // new package name, or ""
	idents   map[string]string // top-level function declarations to rename
	noYields bool
}

func (r *rewriter) file(name string, src []byte, rel string, o pkgOpts) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }
	used := false

	imports := make(map[string]string) // local name -> path
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		local := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			local = im.Name.Name
		}
		if _, ok := replaced[path]; ok {
			imports[local] = path
		}
	}
	kept := make(map[string]bool)

	site := func(p token.Pos) string {
		r.sites = append(r.sites, fmt.Sprintf("%s:%d", rel, fset.Position(p).Line))
		r.nextSite++
		used = true
		return fmt.Sprintf("zsim.Y(%d); ", r.nextSite-1)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if o.noYields {
				return
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), off(s.Pos()), site(s.Pos()))
		}
	}
	var selects []*ast.SelectStmt
	inSelect := func(n ast.Node) bool {
		for _, s := range selects {
			for _, c := range s.Body.List {
				if cc := c.(*ast.CommClause); cc.Comm != nil && n.Pos() >= cc.Comm.Pos() && n.End() <= cc.Comm.End() {
					return true
				}
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if to, ok := o.idents[n.Name.Name]; ok && n.Recv == nil {
				add(off(n.Name.Pos()), off(n.Name.End()), to)
			}
		case *ast.BlockStmt:
			isClauses := false
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					isClauses = true
				}
			}
			if !isClauses {
				stmts(n.List)
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && id.Obj == nil {
				if path, ok := imports[id.Name]; ok {
					if to, ok := replaced[path][n.Sel.Name]; ok {
						add(off(n.Pos()), off(n.End()), "zsim."+to)
						used = true
						kept[id.Name] = true
					}
				}
			}
		case *ast.GoStmt:
			// go f(a, b)  =>  { zf := f; za, zb := a, b; zsim.Go(func() { zf(za, zb) }) }
			used = true
			call := n.Call
			if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(n.Pos()), off(call.Pos()), "zsim.Go(")
				add(off(call.Lparen), off(call.Rparen)+1, ")")
				break
			}
			if _, ok := call.Fun.(*ast.FuncLit); ok {
				add(off(n.Pos()), off(call.Pos()), "{ zf := ")
			} else {
				add(off(n.Pos()), off(call.Pos()), "{ zf := ")
			}
			pre, names := "", make([]string, 0)
			for i := range call.Args {
				names = append(names, fmt.Sprintf("za%d", i))
			}
			if len(names) > 0 {
				pre = "; " + strings.Join(names, ", ") + " := "
			} else {
				pre = "; "
			}
			tail := strings.Join(names, ", ")
			if call.Ellipsis.IsValid() {
				tail += "..."
				add(off(call.Ellipsis), off(call.Ellipsis)+3, "")
			}
			add(off(call.Lparen), off(call.Lparen)+1, pre)
			sep := "; "
			if len(names) == 0 {
				sep = ""
			}
			add(off(call.Rparen), off(call.Rparen)+1, sep+"zsim.Go(func() { zf("+tail+") }) }")
		case *ast.SelectStmt:
			selects = append(selects, n)
			def := false
			for _, c := range n.Body.List {
				def = def || c.(*ast.CommClause).Comm == nil
			}
			if !def {
				used = true
				add(off(n.Pos()), off(n.Pos()), "zo := zsim.Outside(); ")
				for _, c := range n.Body.List {
					cc := c.(*ast.CommClause)
					add(off(cc.Colon)+1, off(cc.Colon)+1, " zsim.Rejoin(zo); ")
				}
			}
		case *ast.SendStmt:
			if !inSelect(n) {
				used = true
				add(off(n.Pos()), off(n.Pos()), "func() { zo := zsim.Outside(); defer zsim.Rejoin(zo); ")
				add(off(n.End()), off(n.End()), " }()")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect(n) {
				used = true
				add(off(n.Pos()), off(n.Pos())+2, "zsim.Recv(")
				add(off(n.End()), off(n.End()), ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 && !inSelect(n) {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					used = true
					add(off(u.Pos()), off(u.Pos())+2, "zsim.Recv2(")
					add(off(u.End()), off(u.End()), ")")
					for _, l := range n.Lhs {
						_ = l
					}
					return false
				}
			}
		}
		return true
	})
	if o.rename != "" {
		// The go command reads embedded files past the overlay: their content goes into the copy.
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				doc := v.Doc
				if doc == nil && len(g.Specs) == 1 {
					doc = g.Doc
				}
				if doc == nil || v.Type == nil {
					continue
				}
				for _, c := range doc.List {
					pattern, ok := strings.CutPrefix(c.Text, "//go:embed ")
					if !ok {
						continue
					}
					data, err := os.ReadFile(filepath.Join(filepath.Dir(name), strings.TrimSpace(pattern)))
					if err != nil {
						return "", err
					}
					add(off(c.Pos()), off(c.Pos())+len("//go:embed"), "// embedded:")
					typ := string(src[off(v.Type.Pos()):off(v.Type.End())])
					add(off(v.End()), off(v.End()), " = ("+typ+")("+strconv.Quote(string(data))+")")
				}
			}
		}
		add(off(f.Name.Pos()), off(f.Name.End()), o.rename)
	}
	if used {
		add(off(f.Name.End()), off(f.Name.End()), "; import zsim \""+zsimPath+"\"")
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return "", fmt.Errorf("%s: overlapping edits at %d", name, e.off)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	names := make([]string, 0)
	for k := range kept {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		b.WriteString("\n" + fmt.Sprintf(keep[imports[k]], k) + "\n")
	}
	return b.String(), nil
}

// globals returns the package name and the package-level variables of a file.
func globals(name string, src []byte) (string, []string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), name, src, 0)
	if err != nil {
		return "", nil, err
	}
	var out []string
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						out = append(out, n.Name)
					}
				}
			}
		}
	}
	return f.Name.Name, out, nil
}

// reset gives the statements that set the package-level variables of a file to their first values.
// The renamed init functions of the file run as well.
func reset(path string, src []byte, again string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	embedded := func(docs ...*ast.CommentGroup) bool {
		for _, d := range docs {
			if d != nil {
				for _, c := range d.List {
					if strings.HasPrefix(c.Text, "//go:embed") {
						return true
					}
				}
			}
		}
		return false
	}
	var b strings.Builder
	inits := 0
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && fn.Name.Name == "init" {
			inits++
		}
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			if embedded(v.Doc, v.Comment) || len(g.Specs) == 1 && embedded(g.Doc) {
				continue
			}
			var names, values []string
			blank := true
			for _, n := range v.Names {
				names = append(names, n.Name)
				blank = blank && n.Name == "_"
			}
			if blank {
				continue
			}
			for _, e := range v.Values {
				values = append(values, text(e))
			}
			if len(values) == 0 {
				for range names {
					values = append(values, "*new("+text(v.Type)+")")
				}
			}
			fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(names, ", "), strings.Join(values, ", "))
		}
	}
	if inits > 1 {
		return "", fmt.Errorf("%s: more than one init function", path)
	}
	if inits == 1 {
		b.WriteString("\t" + again + "()\n")
	}
	return b.String(), nil
}
