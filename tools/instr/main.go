// instr REPO OUT PKGDIR=LEVEL... : writes instrumented copies of the packages to OUT and an overlay (json) to stdout.
// The copies run under package vsched: goroutines, channels, locks and, at the given level, statements.
// The source text is edited in place, so that everything else stays as it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/mottla/go-AlgebraicProgram-SNARK"

var fset = token.NewFileSet()
var repo string

type pkg struct {
	files []*ast.File
	names []string
	tp    *types.Package
	info  *types.Info
}

var pkgs = map[string]*pkg{}

// importer knows the packages of the repository; all others are empty, which leaves errors nobody looks at
type importer struct{}

func (importer) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, module+"/") {
		if p := load(strings.TrimPrefix(path, module+"/")); p != nil {
			return p.tp, nil
		}
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

func load(dir string) *pkg {
	if p, ok := pkgs[dir]; ok {
		return p
	}
	p := &pkg{info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}}
	pkgs[dir] = p
	names, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
	}
	conf := types.Config{Importer: importer{}, Error: func(error) {}, FakeImportC: true}
	p.tp, _ = conf.Check(module+"/"+dir, fset, p.files, p.info)
	if p.tp == nil {
		p.tp = types.NewPackage(module+"/"+dir, filepath.Base(dir))
	}
	return p
}

func fail(err interface{}) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

type edit struct {
	from, to int // offsets
	text     string
	order    int
}

type editor struct {
	src   []byte
	file  *token.File
	info  *types.Info
	edits []edit
	level int
	n     int
	two   map[ast.Expr]bool // receives with a second result
	skip  map[ast.Node]bool
}

func (e *editor) off(p token.Pos) int { return e.file.Offset(p) }
func (e *editor) replace(from, to token.Pos, text string) {
	e.edits = append(e.edits, edit{e.off(from), e.off(to), text, len(e.edits)})
}
func (e *editor) before(p token.Pos, text string) { e.replace(p, p, text) }
func (e *editor) text(n ast.Node) string          { return string(e.src[e.off(n.Pos()):e.off(n.End())]) }

func (e *editor) isChan(x ast.Expr) bool {
	t := e.info.Types[x].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (e *editor) isMap(x ast.Expr) bool {
	t := e.info.Types[x].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// touches: the statement itself (not the blocks within) reads or writes a field, an element or what a pointer points to
func (e *editor) touches(s ast.Stmt) (r bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			// fields of a copy belong to one goroutine
			if sel := e.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal && sel.Indirect() {
				r = true
			}
		case *ast.IndexExpr, *ast.StarExpr:
			r = true
		}
		return !r
	})
	return
}

func (e *editor) stmts(l []ast.Stmt) {
	if e.level == 0 {
		return
	}
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		if !e.touches(s) {
			continue
		}
		e.before(s.Pos(), fmt.Sprintf("vsched.P(%d); ", e.level))
	}
}

func (e *editor) isBuiltin(id *ast.Ident) bool {
	o := e.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok := o.(*types.Builtin)
	return ok
}

// rewrite returns the edits nested inside of a node, applied to its text
func (e *editor) sub(n ast.Node) string {
	s := &editor{src: e.src, file: e.file, info: e.info, level: e.level, n: e.n + 1000, two: e.two, skip: map[ast.Node]bool{}}
	ast.Inspect(n, s.visit)
	return s.apply(e.off(n.Pos()), e.off(n.End()))
}

func (e *editor) apply(lo, hi int) string {
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		if (a.to == a.from) != (b.to == b.from) {
			return a.to == a.from // insertions first
		}
		return a.order < b.order
	})
	var sb strings.Builder
	p := lo
	for _, d := range e.edits {
		if d.from < p && d.to <= p && d.from != d.to || d.from < p {
			fail(fmt.Sprintf("overlapping edits at %v", e.file.Position(e.file.Pos(d.from))))
		}
		sb.Write(e.src[p:d.from])
		sb.WriteString(d.text)
		p = d.to
	}
	sb.Write(e.src[p:hi])
	return sb.String()
}

func (e *editor) visit(n ast.Node) bool {
	if n == nil || e.skip[n] {
		return false
	}
	switch s := n.(type) {
	case *ast.BlockStmt:
		e.stmts(s.List)
	case *ast.CaseClause:
		e.stmts(s.Body)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			e.two[unparen(s.Rhs[0])] = true
		}
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			e.two[unparen(s.Values[0])] = true
		}
	case *ast.SendStmt:
		e.before(s.Chan.Pos(), "vsched.To(")
		e.replace(s.Chan.End(), s.Value.Pos(), ")(")
		e.before(s.Value.End(), ")")
	case *ast.UnaryExpr:
		if s.Op == token.ARROW {
			f := "vsched.Recv("
			if e.two[s] {
				f = "vsched.Recv2("
			}
			e.replace(s.OpPos, s.X.Pos(), f)
			e.before(s.X.End(), ")")
		}
	case *ast.RangeStmt:
		if e.isChan(s.X) {
			e.n++
			r := fmt.Sprintf("vsR%d_%d", e.n, e.off(s.Pos()))
			switch {
			case s.Key == nil:
				e.replace(s.Range, s.X.Pos(), r+" := vsched.Range(")
				e.before(s.X.End(), "); "+r+".Next(nil); ")
			case s.Tok == token.DEFINE && e.text(s.Key) != "_":
				// one variable for all rounds, as in the version of the language the module is written for
				e.replace(s.Key.Pos(), s.X.Pos(), r+", "+e.text(s.Key)+" := vsched.RangeVar(")
				e.before(s.X.End(), "); "+r+".Next(&"+e.text(s.Key)+"); ")
			case e.text(s.Key) == "_":
				e.replace(s.Key.Pos(), s.X.Pos(), r+" := vsched.Range(")
				e.before(s.X.End(), "); "+r+".Next(nil); ")
			default:
				e.replace(s.Key.Pos(), s.X.Pos(), r+" := vsched.Range(")
				e.before(s.X.End(), "); "+r+".Next(&"+e.text(s.Key)+"); ")
			}
		}
		if e.isMap(s.X) && s.Key != nil {
			e.n++
			r := fmt.Sprintf("vsM%d_%d", e.n, e.off(s.Pos()))
			given := func(x ast.Expr) bool { return x != nil && e.text(x) != "_" }
			ref := func(x ast.Expr) string {
				if given(x) {
					return "&" + e.text(x)
				}
				return "nil"
			}
			vars, f := r, "MapRange"
			if s.Tok == token.DEFINE {
				switch {
				case given(s.Key) && given(s.Value):
					vars, f = r+", "+e.text(s.Key)+", "+e.text(s.Value), "MapVars"
				case given(s.Key):
					vars, f = r+", "+e.text(s.Key), "MapVar"
				case given(s.Value):
					vars, f = r+", "+e.text(s.Value), "MapVal"
				}
			}
			e.replace(s.Key.Pos(), s.X.Pos(), vars+" := vsched."+f+"(")
			e.before(s.X.End(), "); "+r+".Next("+ref(s.Key)+", "+ref(s.Value)+"); ")
		}
	case *ast.CallExpr:
		if id, ok := s.Fun.(*ast.Ident); ok && len(s.Args) == 1 && e.isBuiltin(id) {
			switch {
			case id.Name == "close":
				e.replace(id.Pos(), id.End(), "vsched.Close")
			case id.Name == "len" && e.isChan(s.Args[0]):
				e.replace(id.Pos(), id.End(), "vsched.Len")
			}
		}
	case *ast.GoStmt:
		e.goStmt(s)
		return false
	case *ast.SelectStmt:
		e.selectStmt(s)
		return false
	}
	return true
}

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

func (e *editor) goStmt(s *ast.GoStmt) {
	c := s.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		e.replace(s.Pos(), s.End(), "vsched.Go("+e.sub(c.Fun)+")")
		return
	}
	e.n++
	var sb strings.Builder
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" && e.isBuiltin(id) {
		fmt.Fprintf(&sb, "{ vsA := %s; vsched.Go(func() { vsched.Close(vsA) }) }", e.sub(c.Args[0]))
		e.replace(s.Pos(), s.End(), sb.String())
		return
	}
	fmt.Fprintf(&sb, "{ vsF%d := %s; ", e.n, e.sub(c.Fun))
	var args []string
	for i, a := range c.Args {
		switch v := a.(type) {
		case *ast.BasicLit:
			args = append(args, v.Value)
			continue
		case *ast.Ident:
			if v.Name == "nil" || v.Name == "true" || v.Name == "false" {
				args = append(args, v.Name)
				continue
			}
		}
		fmt.Fprintf(&sb, "vsA%d_%d := %s; ", e.n, i, e.sub(a))
		args = append(args, fmt.Sprintf("vsA%d_%d", e.n, i))
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	fmt.Fprintf(&sb, "vsched.Go(func() { vsF%d(%s%s) }) }", e.n, strings.Join(args, ", "), dots)
	e.replace(s.Pos(), s.End(), sb.String())
}

func (e *editor) selectStmt(s *ast.SelectStmt) {
	e.n++
	var names, inits, body []string
	def := false
	for i, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		name := fmt.Sprintf("vsC%d_%d", e.n, len(names))
		head := ""
		switch x := c.Comm.(type) {
		case nil:
			def = true
			head = "case -1:"
		case *ast.SendStmt:
			names = append(names, name)
			inits = append(inits, "vsched.OnSend("+e.sub(x.Chan)+")("+e.sub(x.Value)+")")
			head = fmt.Sprintf("case %d:", len(names)-1)
		case *ast.ExprStmt:
			names = append(names, name)
			inits = append(inits, "vsched.OnRecv("+e.sub(unparen(x.X).(*ast.UnaryExpr).X)+")")
			head = fmt.Sprintf("case %d:", len(names)-1)
		case *ast.AssignStmt:
			names = append(names, name)
			inits = append(inits, "vsched.OnRecv("+e.sub(unparen(x.Rhs[0]).(*ast.UnaryExpr).X)+")")
			head = fmt.Sprintf("case %d: %s %s %s.V", len(names)-1, e.text(x.Lhs[0]), x.Tok, name)
			if len(x.Lhs) == 2 {
				head = fmt.Sprintf("case %d: %s, %s %s %s.V, %s.OK", len(names)-1, e.text(x.Lhs[0]), e.text(x.Lhs[1]), x.Tok, name, name)
			}
		default:
			fail(fmt.Sprintf("select case %d: %T", i, x))
		}
		var sb strings.Builder
		sb.WriteString(head + "\n")
		for _, b := range c.Body {
			if e.level > 0 {
				fmt.Fprintf(&sb, "vsched.P(%d); ", e.level)
			}
			sb.WriteString(e.sub(b) + "\n")
		}
		body = append(body, sb.String())
	}
	var sb strings.Builder
	sb.WriteString("switch ")
	if len(names) > 0 {
		sb.WriteString(strings.Join(names, ", ") + " := " + strings.Join(inits, ", ") + "; ")
	}
	args := append([]string{fmt.Sprint(def)}, names...)
	sb.WriteString("vsched.Select(" + strings.Join(args, ", ") + ") {\n" + strings.Join(body, "") + "}")
	e.replace(s.Pos(), s.End(), sb.String())
}

func main() {
	repo = os.Args[1]
	out := os.Args[2]
	overlay := map[string]string{}
	for _, a := range os.Args[3:] {
		kv := strings.SplitN(a, "=", 2)
		level, err := strconv.Atoi(kv[1])
		if err != nil {
			fail(err)
		}
		p := load(kv[0])
		for i, f := range p.files {
			src, err := os.ReadFile(p.names[i])
			if err != nil {
				fail(err)
			}
			e := &editor{src: src, file: fset.File(f.Pos()), info: p.info, level: level, two: map[ast.Expr]bool{}, skip: map[ast.Node]bool{}}
			if level == 1 {
				// statements only where the coefficient maps are worked on
				touches := false
				ast.Inspect(f, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok && (id.Name == "AvlTree" || id.Name == "AvlNode" || id.Name == "Entry") {
						touches = true
					}
					return !touches
				})
				if !touches {
					e.level = 0
				}
			}
			e.before(f.Name.End(), "; import vsched \""+module+"/zz_verif_sched\"")
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					e.replace(im.Path.Pos(), im.Path.End(), `"`+module+`/zz_verif_sched/vsync"`)
				}
			}
			for _, d := range f.Decls {
				ast.Inspect(d, e.visit)
			}
			text := e.apply(0, len(src)) + "\n\nvar _ = vsched.P\n"
			dst := filepath.Join(out, kv[0], filepath.Base(p.names[i]))
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				fail(err)
			}
			if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
				fail(err)
			}
			overlay[p.names[i]] = dst
		}
	}
	json.NewEncoder(os.Stdout).Encode(overlay)
}
