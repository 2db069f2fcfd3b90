// Command instr writes, for every non-test Go file of the module in -repo, a copy in -out with a yield before each
// statement that can touch memory another goroutine could reach, plus overlay.json (for go build -overlay) and
// sites.json (the table of yields). It changes no line numbers and nothing in -repo.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Site describes one yield.
type Site struct {
	File   string `json:"file"`
	Line   int    `json:"line"`
	Func   string `json:"func"`
	Ord    int    `json:"ord"`    // ordinal within the function
	Hot    bool   `json:"hot"`    // the statement uses state that outlives calls, or synchronises
	Shared bool   `json:"shared"` // the statement names a package-level variable or stores through a pointer, slice or map
	Entry  bool   `json:"entry"`  // first statement of a function
}

type output struct {
	Coarse     string `json:"coarse,omitempty"`     // why no yields were inserted, if none were
	Clock      bool   `json:"clock,omitempty"`      // the library reads the clock
	Finalizers bool   `json:"finalizers,omitempty"` // it sets finalizers
	Sites      []Site `json:"sites"`
	Files      int    `json:"files"`
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type listed struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Dir string }
}

func goList(repo string) (pkgs []listed, exports map[string]string) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	exports = map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[l.ImportPath] = l.Export
		if !l.Standard && l.Module != nil && l.Module.Dir == repo {
			pkgs = append(pkgs, l)
		}
	}
	return
}

type edit struct {
	off int
	del int
	ins string
	pri int // among edits at one offset
}

type instrumenter struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	out    *output
	edits  []edit
	base   int
	fname  string
	fn     string
	ord    int
	escape map[types.Object]bool // locals whose address is taken or that a closure captures
	coarse string
	src    []byte
	nsel   int
	rest   map[string]string     // packages, uses of which lead to the simulator now, and their names here
	hot    map[types.Object]bool // package-level variables that change
}

func main() {
	repo := flag.String("repo", "/repo", "")
	outDir := flag.String("out", "", "")
	coarse := flag.String("coarse", "", "insert nothing, for this reason")
	flag.Parse()
	pkgs, exports := goList(*repo)
	out := &output{Coarse: *coarse, Sites: []Site{}}
	overlay := map[string]string{}
	if *coarse == "" {
		for _, p := range pkgs {
			if c := instrumentPackage(p, exports, *repo, *outDir, out, overlay); c != "" {
				out = &output{Coarse: c, Sites: []Site{}}
				overlay = map[string]string{}
				break
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	must(os.WriteFile(filepath.Join(*outDir, "overlay.json"), b, 0o644))
	b, _ = json.MarshalIndent(out, "", " ")
	must(os.WriteFile(filepath.Join(*outDir, "sites.json"), b, 0o644))
	fmt.Printf("instrumented %d files, %d yields%s\n", out.Files, len(out.Sites), map[bool]string{true: " (coarse: " + out.Coarse + ")"}[out.Coarse != ""])
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func instrumentPackage(p listed, exports map[string]string, repo, outDir string, out *output, overlay map[string]string) string {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		must(err)
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	hot := changing(files, info, pkg)
	for i, af := range files {
		in := &instrumenter{fset: fset, info: info, pkg: pkg, out: out, base: fset.File(af.Pos()).Base(), escape: map[types.Object]bool{}, rest: map[string]string{}, hot: hot, src: srcs[i]}
		rel, _ := filepath.Rel(repo, fset.File(af.Pos()).Name())
		in.fname = rel
		in.file(af)
		if in.coarse != "" {
			return in.coarse
		}
		res := in.apply(srcs[i])
		name := strings.ReplaceAll(rel, string(filepath.Separator), "__")
		dst := filepath.Join(outDir, "src", name)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, res, 0o644))
		overlay[fset.File(af.Pos()).Name()] = dst
		out.Files++
	}
	return ""
}

func (in *instrumenter) apply(src []byte) []byte {
	// At one offset insertions go before replacements; among insertions the earlier one goes first.
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.pri != b.pri {
			return a.pri < b.pri
		}
		return a.del == 0 && b.del > 0
	})
	return in.render(src, 0, len(src), -1)
}

// render is src[from:to] with its edits, but for number own.
func (in *instrumenter) render(src []byte, from, to, own int) []byte {
	var b bytes.Buffer
	pos := from
	for i, e := range in.edits {
		if e.off < pos || e.off+e.del > to || i == own {
			continue
		}
		b.Write(src[pos:e.off])
		for parts := strings.Split(e.ins, "\x00"); len(parts) > 0; parts = parts[1:] {
			b.WriteString(parts[0])
			if len(parts) > 1 {
				var x, y int
				fmt.Sscan(parts[1], &x, &y)
				b.Write(in.render(src, x, y, i))
				parts = parts[1:]
			}
		}
		pos = e.off + e.del
	}
	b.Write(src[pos:to])
	return b.Bytes()
}

// moved stands for the text of e with its own edits.
func (in *instrumenter) moved(e ast.Expr) string {
	return fmt.Sprintf("\x00%d %d\x00", in.off(e.Pos()), in.off(e.End()))
}

func (in *instrumenter) off(p token.Pos) int { return int(p) - in.base }

// instead lists the packages that stand in for others.
var instead = map[string]string{
	"sync":         "verif.local/sim/simsync",
	"hash/maphash": "verif.local/sim/simmaphash",
}

func (in *instrumenter) file(f *ast.File) {
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if by := instead[path]; by != "" {
			ins := strconv.Quote(by)
			if is.Name == nil {
				ins = path[strings.LastIndex(path, "/")+1:] + " " + ins
			}
			in.put(is.Path.Pos(), len(is.Path.Value), ins, 0)
		}
	}
	// Locals that are not purely local: address taken, captured by a closure, or method with pointer receiver called.
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			in.findEscapes(fd)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			if tv := in.info.Types[x.Call.Fun]; tv.IsBuiltin() {
				in.put(x.Pos(), in.off(x.Call.Pos())-in.off(x.Pos()), "vsimrt.GoCall(func() { ", 0)
				in.put(x.End(), 0, " })", -2000)
				break
			}
			call, sep := "vsimrt.GoCall(", ""
			if x.Call.Ellipsis.IsValid() {
				call = "vsimrt.GoCallSlice("
				in.put(x.Call.Ellipsis, 3, "", 0)
			}
			if len(x.Call.Args) > 0 {
				sep = ", "
			}
			in.put(x.Pos(), in.off(x.Call.Fun.Pos())-in.off(x.Pos()), call, 0)
			in.put(x.Call.Lparen, 1, sep, 0)
		}
		return in.coarse == ""
	})
	in.channels(f)
	in.seams(f)
	if in.coarse != "" {
		return
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				in.fn, in.ord = "var", 0
				in.lits(gd)
			}
			continue
		}
		in.fn, in.ord = funcName(fd), 0
		in.block(fd.Body.List, true)
		in.lits(fd.Body)
	}
	// An import must precede other declarations, so the use of it goes to the end of the file.
	in.put(f.Name.End(), 0, `; import vsimrt "verif.local/sim/simrt"`, 0)
	end := "\nvar _ = vsimrt.Y\n"
	for _, path := range []string{"context", "math/rand", "math/rand/v2", "os", "runtime", "time"} {
		if name := in.rest[path]; name != "" {
			end += fmt.Sprintf(stillUsed[path]+"\n", name)
		}
	}
	in.edits = append(in.edits, edit{int(f.FileEnd) - in.base, 0, end, 0})
}

func (in *instrumenter) put(p token.Pos, del int, ins string, pri int) {
	in.edits = append(in.edits, edit{in.off(p), del, ins, pri})
}

func funcName(fd *ast.FuncDecl) string {
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return id.Name + "." + fd.Name.Name
		}
	}
	return fd.Name.Name
}

func (in *instrumenter) root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (in *instrumenter) mark(e ast.Expr) {
	if id := in.root(e); id != nil {
		if o := in.info.Uses[id]; o != nil {
			in.escape[o] = true
		}
	}
}

func (in *instrumenter) findEscapes(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				in.mark(x.X)
			}
		case *ast.SliceExpr: // slicing an array takes its address
			in.mark(x.X)
		case *ast.SelectorExpr:
			if s := in.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						in.mark(x.X)
					}
				}
			}
		case *ast.FuncLit:
			ast.Inspect(x.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if o := in.info.Uses[id]; o != nil && (o.Pos() < x.Pos() || o.Pos() > x.End()) {
						in.escape[o] = true
					}
				}
				return true
			})
		}
		return true
	})
}

// plain reports whether values of t hold no reference to other memory.
func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return plain(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// local reports whether evaluating n touches only memory of the current goroutine.
func (in *instrumenter) local(n ast.Node) bool {
	if n == nil {
		return true
	}
	ok := true
	ast.Inspect(n, func(m ast.Node) bool {
		if !ok {
			return false
		}
		switch x := m.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.Ident:
			o := in.info.Uses[x]
			if o == nil {
				o = in.info.Defs[x]
			}
			switch v := o.(type) {
			case nil:
			case *types.Var:
				if v.IsField() {
					break
				}
				if v.Parent() == in.pkg.Scope() || v.Pkg() != in.pkg || in.escape[v] || !plain(v.Type()) {
					ok = false
				}
			case *types.Const, *types.TypeName, *types.Nil, *types.Builtin, *types.PkgName, *types.Label:
			default:
				ok = false
			}
		case *ast.CallExpr:
			tv := in.info.Types[x.Fun]
			if tv.IsType() {
				break
			}
			if tv.IsBuiltin() {
				switch id, _ := x.Fun.(*ast.Ident); {
				case id != nil && (id.Name == "len" || id.Name == "cap" || id.Name == "min" || id.Name == "max"):
				default:
					ok = false
				}
				break
			}
			ok = false
		case *ast.StarExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.AND || x.Op == token.ARROW {
				ok = false
			}
		case *ast.CompositeLit, *ast.TypeAssertExpr, *ast.SliceExpr:
			if _, comp := m.(*ast.CompositeLit); comp {
				if tv, has := in.info.Types[x.(ast.Expr)]; has && plain(tv.Type) {
					break
				}
			}
			ok = false
		case *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			ok = false
		}
		return ok
	})
	return ok
}

// changing finds the package-level variables whose value, or what they hold, can change after initialisation.
func changing(files []*ast.File, info *types.Info, pkg *types.Package) map[types.Object]bool {
	hot := map[types.Object]bool{}
	global := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() && v.Parent() == pkg.Scope() {
					return v
				}
				return nil
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			default:
				return nil
			}
		}
	}
	mark := func(e ast.Expr) {
		if o := global(e); o != nil {
			hot[o] = true
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.SliceExpr:
					mark(x.X)
				case *ast.SendStmt:
					mark(x.Chan)
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && (id.Name == "copy" || id.Name == "delete" || id.Name == "append" || id.Name == "clear") {
						mark(x.Args[0])
					}
				}
				return true
			})
		}
	}
	for _, n := range pkg.Scope().Names() {
		v, ok := pkg.Scope().Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Map, *types.Chan:
			hot[v] = true
		default:
			if u, ok := u.(*types.Pointer); ok && synced(u.Elem(), 0) {
				hot[v] = true
			}
			if synced(v.Type(), 0) {
				hot[v] = true
			}
		}
	}
	return hot
}

// synced reports whether t is, or contains, a type of package sync or sync/atomic.
func synced(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if synced(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return synced(u.Elem(), depth+1)
	}
	return false
}

// isHot reports whether the statement synchronises, or uses state that outlives the call: a package-level variable
// that changes, a field of the receiver or of what it refers to that is stored to, a map.
func (in *instrumenter) isHot(n ast.Node) bool {
	found := false
	field := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				e = x.X
				if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
					if _, m := tv.Type.Underlying().(*types.Map); m {
						found = true
					}
				}
			case *ast.ParenExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SelectorExpr:
				if tv, ok := in.info.Types[x.X]; ok && tv.Type != nil {
					if _, p := tv.Type.Underlying().(*types.Pointer); p {
						found = true
					}
				}
				e = x.X
			default:
				return
			}
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if o := in.info.Uses[x]; o != nil && in.hot[o] {
				found = true
			}
		case *ast.SelectorExpr:
			if o := in.info.Uses[x.Sel]; o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "sync") {
				found = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				field(l)
			}
		case *ast.IncDecStmt:
			field(x.X)
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete") && len(x.Args) > 0 {
				field(x.Args[0])
				if id.Name == "delete" {
					found = true
				}
			}
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return true
	})
	return found
}

// shared reports whether the statement names a package-level variable or stores through a reference.
func (in *instrumenter) shared(n ast.Node) bool {
	found := false
	store := func(e ast.Expr) {
		switch e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			found = true
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Parent() == in.pkg.Scope() {
				found = true
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				store(l)
			}
		case *ast.IncDecStmt:
			store(x.X)
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "append") {
				found = true
			}
		}
		return true
	})
	return found
}

func (in *instrumenter) site(s ast.Stmt, entry bool) {
	id := len(in.out.Sites)
	pos := in.fset.Position(s.Pos())
	in.out.Sites = append(in.out.Sites, Site{File: in.fname, Line: pos.Line, Func: in.fn, Ord: in.ord, Shared: in.shared(s), Hot: in.isHot(s), Entry: entry})
	in.ord++
	in.put(s.Pos(), 0, fmt.Sprintf("vsimrt.Y(%d); ", id), 0)
}

func (in *instrumenter) block(list []ast.Stmt, first bool) {
	for i, s := range list {
		if _, empty := s.(*ast.EmptyStmt); !empty && !in.header(s) {
			in.site(s, first && i == 0)
		}
		in.maps(s)
		in.tear(s)
		in.nested(s)
	}
}

func (in *instrumenter) text(e ast.Expr) string {
	return string(in.src[in.off(e.Pos()):in.off(e.End())])
}

// channels turns the channel operations of the file into ones that wait in the simulator.
func (in *instrumenter) channels(f *ast.File) {
	depth := 0
	var stack []ast.Node
	comm := map[ast.Node]bool{}
	typ := func(e ast.Expr) string {
		ok := true
		s := types.TypeString(in.info.Types[e].Type, func(p *types.Package) string {
			if p == in.pkg {
				return ""
			}
			for _, is := range f.Imports {
				if path, _ := strconv.Unquote(is.Path.Value); path == p.Path() {
					if is.Name != nil {
						return is.Name.Name
					}
					return p.Name()
				}
			}
			ok = false
			return p.Name()
		})
		if !ok {
			in.coarse = "a channel of a type that " + in.fname + " does not import"
		}
		return s
	}
	isChan := func(e ast.Expr) bool {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ch := tv.Type.Underlying().(*types.Chan)
		return ch
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			depth--
			return true
		}
		stack = append(stack, n)
		depth++
		switch x := n.(type) {
		case *ast.SelectStmt:
			in.selection(x, comm)
		case *ast.SendStmt:
			if comm[x] {
				break
			}
			in.put(x.Pos(), 0, "vsimrt.Send(", 5)
			in.put(x.Arrow, 2, ",", 0)
			in.put(x.End(), 0, ")", -depth)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				in.put(x.OpPos+2, 0, "vsimrt.Await(", 0)
				in.put(x.End(), 0, ").("+typ(x.X)+")", -depth)
			}
		case *ast.RangeStmt:
			if !isChan(x.X) {
				in.mapRange(x)
				break
			}
			in.nsel++
			c := fmt.Sprintf("vsimc%d", in.nsel)
			recv := "<-" + c + "; "
			if x.Key != nil {
				recv = in.text(x.Key) + " " + x.Tok.String() + " " + recv
			}
			in.put(x.For, in.off(x.Body.Lbrace)-in.off(x.For), "for "+c+" := "+in.moved(x.X)+"; vsimrt.More("+c+"); ", 0)
			in.put(x.Body.Lbrace+1, 0, " "+recv, -1)
		case *ast.CallExpr:
			id, _ := x.Fun.(*ast.Ident)
			if id == nil || len(x.Args) == 0 || !in.info.Types[x.Fun].IsBuiltin() {
				break
			}
			switch {
			case id.Name == "close":
				in.put(id.Pos(), len("close"), "vsimrt.Close", 0)
			case id.Name == "make" && isChan(x.Args[0]):
				t := in.text(x.Args[0])
				in.put(id.Pos(), 0, "vsimrt.Made(", 5)
				if len(x.Args) == 1 {
					in.put(x.Rparen, 0, ", vsimrt.Room(0)", 0)
				} else {
					in.put(x.Args[1].Pos(), 0, "vsimrt.Room(int(", 0)
					in.put(x.Args[1].End(), 0, "))", -depth)
				}
				in.put(x.End(), 0, ").("+t+")", -depth)
			}
		}
		return true
	})
}

// selection turns a select statement into a switch over the case that the simulator chooses.
func (in *instrumenter) selection(x *ast.SelectStmt, comm map[ast.Node]bool) {
	in.nsel++
	var names, vals, cases []string
	def := false
	for i, cl := range x.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		name := fmt.Sprintf("vsimc%dx%d", in.nsel, i)
		names = append(names, name)
		var stmt string
		switch y := c.Comm.(type) {
		case *ast.SendStmt:
			comm[y] = true
			vals = append(vals, in.moved(y.Chan))
			cases = append(cases, "vsimrt.S("+name+")")
			v := in.moved(y.Value)
			if tv := in.info.Types[y.Value]; tv.Value == nil && !tv.IsNil() {
				names = append(names, name+"v")
				vals = append(vals, v)
				v = name + "v"
			}
			stmt = "vsimrt.Put(" + name + ", " + v + ")"
		case *ast.ExprStmt:
			u := unparen(y.X).(*ast.UnaryExpr)
			comm[u] = true
			vals = append(vals, in.moved(u.X))
			cases = append(cases, "vsimrt.R("+name+")")
			stmt = "<-" + name
		case *ast.AssignStmt:
			u := unparen(y.Rhs[0]).(*ast.UnaryExpr)
			comm[u] = true
			vals = append(vals, in.moved(u.X))
			cases = append(cases, "vsimrt.R("+name+")")
			stmt = string(in.src[in.off(y.Pos()):in.off(y.Rhs[0].Pos())]) + "<-" + name
		}
		in.put(c.Case, in.off(c.Colon)+1-in.off(c.Case), fmt.Sprintf("case %d: %s; ", len(cases)-1, stmt), 0)
	}
	h := "switch "
	if len(names) > 0 {
		h += strings.Join(names, ", ") + " := (" + strings.Join(vals, "), (") + "); "
	}
	h += fmt.Sprintf("vsimrt.Select(%v", def)
	for _, c := range cases {
		h += ", " + c
	}
	in.put(x.Select, len("select"), h+")", 0)
	if !def {
		sep := "; "
		if len(x.Body.List) == 0 {
			sep = ""
		}
		in.put(x.Body.Rbrace, 0, sep+"default: panic(\"no case of a select\") ", 0)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// seams leads uses of the clock, of the circumstances of the process and of finalizers to the simulator's.
var seams = map[string]map[string]bool{
	"time":    {"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "NewTimer": true, "AfterFunc": true, "NewTicker": true, "Tick": true},
	"runtime": {"GOMAXPROCS": true, "NumCPU": true, "NumGoroutine": true, "Gosched": true, "SetFinalizer": true, "ReadMemStats": true},
	"context": {"WithTimeout": true, "WithDeadline": true},
	"os": {"Getpid": true, "Getppid": true, "Hostname": true, "Getenv": true, "LookupEnv": true,
		"Getuid": true, "Geteuid": true, "Getgid": true, "Getegid": true, "Getwd": true, "Executable": true},
}

// Both packages of pseudo-random numbers seed themselves in a way that cannot be controlled.
func init() {
	fs := map[string]bool{}
	for _, f := range []string{"Int", "Intn", "IntN", "Int31", "Int31n", "Int32", "Int32N", "Int63", "Int63n", "Int64", "Int64N", "Uint", "UintN", "Uint32", "Uint32N", "Uint64", "Uint64N", "Float32", "Float64", "Perm", "Shuffle", "Read", "Seed", "NormFloat64", "ExpFloat64"} {
		fs[f] = true
	}
	seams["math/rand"], seams["math/rand/v2"] = fs, fs
}

// seat is where in package simrt the functions of a package are.
var seat = map[string]string{"math/rand": "vsimrt.Rand1", "math/rand/v2": "vsimrt.Rand2"}

// stillUsed keeps an import of the package in use.
var stillUsed = map[string]string{"time": "var _ %s.Duration", "runtime": "var _ %s.Error", "os": "var _ %s.Signal", "context": "var _ %s.Context", "math/rand": "var _ %s.Source", "math/rand/v2": "var _ %s.Source"}

func (in *instrumenter) seams(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			in.timerMethod(c)
		}
		x, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, _ := x.X.(*ast.Ident)
		if id == nil {
			return true
		}
		p, ok := in.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path := p.Imported().Path()
		if seams[path][x.Sel.Name] {
			to := "vsimrt"
			if seat[path] != "" {
				to = seat[path]
			}
			in.put(id.Pos(), len(id.Name), to, 1)
			in.rest[path] = id.Name
			if path == "time" || path == "context" {
				in.out.Clock = true
			}
			if x.Sel.Name == "SetFinalizer" {
				in.out.Finalizers = true
			}
		}
		return true
	})
}

// timerMethod leads the methods of timers and tickers that take effect on their clock to the simulator's.
func (in *instrumenter) timerMethod(c *ast.CallExpr) {
	x, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	sel := in.info.Selections[x]
	if sel == nil || sel.Kind() != types.MethodVal {
		return
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return
	}
	to := map[string]string{"(*time.Timer).Reset": "TimerReset", "(*time.Ticker).Reset": "TickerReset", "(*time.Ticker).Stop": "TickerStop"}[f.FullName()]
	if to == "" || len(sel.Index()) != 1 {
		return
	}
	head, sep := "vsimrt."+to+"(", ""
	if _, ptr := sel.Recv().Underlying().(*types.Pointer); !ptr {
		head += "&"
	}
	if len(c.Args) > 0 {
		sep = ", "
	}
	in.put(x.Pos(), 0, head, 5)
	in.put(x.X.End(), in.off(c.Lparen)+1-in.off(x.X.End()), sep, 0)
}

// tear takes a store of several words apart: hardware does not do it at once.
func (in *instrumenter) tear(s ast.Stmt) {
	x, ok := s.(*ast.AssignStmt)
	if !ok || x.Tok != token.ASSIGN || hasClosure(x) {
		return
	}
	site := func() string {
		id := len(in.out.Sites)
		pos := in.fset.Position(s.Pos())
		in.out.Sites = append(in.out.Sites, Site{File: in.fname, Line: pos.Line, Func: in.fn, Ord: in.ord, Shared: true, Hot: in.isHot(s)})
		in.ord++
		return fmt.Sprintf("vsimrt.Y(%d); ", id)
	}
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		l := x.Lhs[0]
		if in.local(l) || !in.addressable(l) {
			return
		}
		lt, rt := in.info.Types[l].Type, in.info.Types[x.Rhs[0]].Type
		if lt == nil || rt == nil || !types.Identical(lt, rt) {
			return
		}
		var first, second string
		switch u := lt.Underlying().(type) {
		case *types.Struct:
			n := u.NumFields()
			if n < 2 {
				return
			}
			for i := 0; i < n; i++ {
				fd := u.Field(i)
				if !fd.Exported() && fd.Pkg() != in.pkg {
					return
				}
				if fd.Name() == "_" {
					continue
				}
				a := "vsimp." + fd.Name() + " = vsimt." + fd.Name() + "; "
				if i < (n+1)/2 {
					first += a
				} else {
					second += a
				}
			}
		case *types.Array:
			if u.Len() < 2 {
				return
			}
			h := u.Len() / 2
			first = fmt.Sprintf("copy(vsimp[:%d], vsimt[:%d]); ", h, h)
			second = fmt.Sprintf("copy(vsimp[%d:], vsimt[%d:]); ", h, h)
		default:
			return
		}
		in.put(s.Pos(), 0, "{ vsimp := &", 0)
		in.put(x.TokPos, 1, "; vsimt := ", 0)
		in.put(s.End(), 0, "; "+first+site()+second+"}", -1000)
		return
	}
	if len(x.Lhs) != len(x.Rhs) || len(x.Lhs) < 2 {
		return
	}
	shared := 0
	var names []string
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); !pure(l) || ok && id.Name == "_" {
			return
		}
		if !in.local(l) {
			shared++
		}
		names = append(names, in.text(l))
		tv := in.info.Types[x.Rhs[i]]
		if tv.Type == nil {
			return
		}
		if tv.Value != nil {
			continue
		}
		lt := in.info.Types[l].Type
		if lt == nil || !types.Identical(lt, tv.Type) {
			return
		}
		if b, ok := lt.(*types.Basic); ok && b.Kind() == types.Bool || ok && b.Kind() == types.Int {
			continue
		}
		if _, basic := lt.Underlying().(*types.Basic); basic {
			// An untyped comparison or shift has no type of its own.
			if _, bin := unparen(x.Rhs[i]).(*ast.BinaryExpr); bin {
				return
			}
			if _, un := unparen(x.Rhs[i]).(*ast.UnaryExpr); un {
				return
			}
		}
	}
	if shared < 2 {
		return
	}
	for i, a := range names {
		for j, b := range names {
			if i != j && (a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(a, "*"+b)) {
				return
			}
		}
	}
	// { v0, v1 := rhs...; lhs0 = v0; yield; lhs1 = v1 }
	vars := make([]string, len(names))
	some := false
	for i := range names {
		tv := in.info.Types[x.Rhs[i]]
		if tv.IsNil() {
			return
		}
		vars[i] = "_"
		if tv.Value == nil {
			vars[i] = fmt.Sprintf("vsimv%d", i)
			some = true
		}
	}
	if !some {
		return
	}
	out := "; "
	for i, n := range names {
		if i > 0 {
			out += site()
		}
		v := vars[i]
		if v == "_" {
			v = in.text(x.Rhs[i])
		}
		out += n + " = " + v + "; "
	}
	in.put(s.Pos(), in.off(x.Lhs[len(x.Lhs)-1].End())-in.off(s.Pos()), "{ "+strings.Join(vars, ", "), 2)
	in.put(x.TokPos, 1, ":=", 0)
	in.put(s.End(), 0, out+"}", -1000)
}

// addressable reports whether the address of e can be taken.
func (in *instrumenter) addressable(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.Addressable() && (pure(e) || indexed(e))
}

// indexed reports whether e is an element or field that can be named once more.
func indexed(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return indexed(x.X)
	case *ast.ParenExpr:
		return indexed(x.X)
	case *ast.StarExpr:
		return indexed(x.X)
	case *ast.IndexExpr:
		return indexed(x.X)
	}
	return false
}

func hasClosure(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch y := m.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			found = found || y.Op == token.ARROW
		}
		return !found
	})
	return found
}

// plain reports whether t can be written down without an import.
func (in *instrumenter) plain(t types.Type) bool {
	switch x := t.(type) {
	case *types.Basic:
		return true
	case *types.Named:
		return x.Obj().Pkg() == in.pkg && x.TypeArgs().Len() == 0 && x.Obj().Parent() == in.pkg.Scope()
	case *types.Array:
		return in.plain(x.Elem())
	}
	return false
}

// mapRange lets the simulator decide the order in which a map is gone through.
func (in *instrumenter) mapRange(x *ast.RangeStmt) {
	tv, ok := in.info.Types[x.X]
	if !ok || tv.Type == nil || x.Key == nil || !pure(x.X) {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok || !in.plain(m.Key()) {
		return
	}
	captured := false // the variables may have to be the same in every round
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt:
			captured = true
		case *ast.UnaryExpr:
			captured = captured || y.Op == token.AND
		}
		return true
	})
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	if captured || !blank(x.Key) && !pure(x.Key) || !blank(x.Value) && !pure(x.Value) {
		return
	}
	key := "vsimk.(" + types.TypeString(m.Key(), func(*types.Package) string { return "" }) + ")"
	body := ""
	if !blank(x.Key) {
		body += " " + in.text(x.Key) + " " + x.Tok.String() + " " + key + ";"
	}
	switch {
	case blank(x.Value):
		body += " if _, vsimok := " + in.text(x.X) + "[" + key + "]; !vsimok { continue };"
	case x.Tok == token.DEFINE:
		body += " " + in.text(x.Value) + ", vsimok := " + in.text(x.X) + "[" + key + "]; if !vsimok { continue };"
	default:
		body += " if _, vsimok := " + in.text(x.X) + "[" + key + "]; !vsimok { continue }; " + in.text(x.Value) + " = " + in.text(x.X) + "[" + key + "];"
	}
	in.put(x.For, in.off(x.Body.Lbrace)-in.off(x.For), "for _, vsimk := range vsimrt.Keys("+in.text(x.X)+") ", 0)
	in.put(x.Body.Lbrace+1, 0, body, -1)
}

// pure reports whether evaluating e twice is the same as evaluating it once.
func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	}
	return false
}

// maps brackets a simple statement that writes a map and announces a statement that reads one, so that accesses which
// overlap can be found: the Go runtime ends a process in which they do.
func (in *instrumenter) maps(s ast.Stmt) {
	isMap := func(e ast.Expr) bool {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, m := tv.Type.Underlying().(*types.Map)
		return m && pure(e)
	}
	written := map[string]bool{}
	var exprs []ast.Node
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if ix, ok := l.(*ast.IndexExpr); ok && isMap(ix.X) {
				written[in.text(ix.X)] = true
			}
		}
		exprs = append(exprs, x)
	case *ast.IncDecStmt:
		if ix, ok := x.X.(*ast.IndexExpr); ok && isMap(ix.X) {
			written[in.text(ix.X)] = true
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && in.info.Types[c.Fun].IsBuiltin() && len(c.Args) > 0 && isMap(c.Args[0]) {
				written[in.text(c.Args[0])] = true
			}
		}
		exprs = append(exprs, x)
	case *ast.ReturnStmt:
		exprs = append(exprs, x)
	case *ast.IfStmt:
		if x.Init != nil {
			exprs = append(exprs, x.Init)
		} else {
			exprs = append(exprs, x.Cond)
		}
	case *ast.SwitchStmt:
		if x.Init != nil {
			exprs = append(exprs, x.Init)
		}
	case *ast.RangeStmt:
		exprs = append(exprs, x.X)
		if isMap(x.X) {
			in.put(s.Pos(), 0, "vsimrt.MapRead("+in.text(x.X)+"); ", 0)
		}
	}
	read := map[string]bool{}
	for _, e := range exprs {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.IndexExpr:
				if isMap(x.X) && !written[in.text(x.X)] {
					read[in.text(x.X)] = true
				}
			}
			return true
		})
	}
	var rs, ws []string
	for t := range read {
		rs = append(rs, t)
	}
	for t := range written {
		ws = append(ws, t)
	}
	sort.Strings(rs)
	sort.Strings(ws)
	for _, t := range rs {
		in.put(s.Pos(), 0, "vsimrt.MapRead("+t+"); ", 0)
	}
	for _, t := range ws {
		in.put(s.Pos(), 0, "vsimrt.MapWrite("+t+"); ", 0)
	}
	for i := range ws {
		t := ws[len(ws)-1-i]
		in.put(s.End(), 0, "; vsimrt.MapDone("+t+")", 0)
	}
}

// header reports whether what s evaluates before any nested block is local.
func (in *instrumenter) header(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.BlockStmt:
		return true
	case *ast.LabeledStmt:
		return in.header(x.Stmt)
	case *ast.IfStmt:
		if x.Init != nil && !in.local(x.Init) || !in.local(x.Cond) {
			return false
		}
		if e, ok := x.Else.(*ast.IfStmt); ok {
			return in.header(e)
		}
		return true
	case *ast.ForStmt:
		return (x.Init == nil || in.local(x.Init)) && (x.Cond == nil || in.local(x.Cond)) && (x.Post == nil || in.local(x.Post))
	case *ast.RangeStmt:
		if x.Key != nil && !in.local(x.Key) || x.Value != nil && !in.local(x.Value) {
			return false
		}
		return in.local(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil && !in.local(x.Init) || x.Tag != nil && !in.local(x.Tag) {
			return false
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if !in.local(e) {
					return false
				}
			}
		}
		return true
	case *ast.BranchStmt:
		return true
	case *ast.DeclStmt:
		return in.local(x)
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			if !in.local(r) {
				return false
			}
		}
		return true
	case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt:
		return in.local(x)
	}
	return false
}

func (in *instrumenter) nested(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x.List, false)
	case *ast.LabeledStmt:
		in.nested(x.Stmt)
	case *ast.IfStmt:
		in.block(x.Body.List, false)
		if x.Else != nil {
			in.nested(x.Else)
		}
	case *ast.ForStmt:
		if in.header(s) {
			in.put(x.Body.Lbrace+1, 0, " vsimrt.L(); ", 0)
		}
		in.loop(x.Body, in.header(s))
	case *ast.RangeStmt:
		in.loop(x.Body, in.header(s))
	case *ast.SwitchStmt:
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		in.clauses(x.Body)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			in.block(c.(*ast.CommClause).Body, false)
		}
	}
}

// loop makes every iteration of a loop whose header touches shared memory hit at least one yield.
func (in *instrumenter) loop(b *ast.BlockStmt, localHeader bool) {
	if !localHeader && (len(b.List) == 0 || in.header(b.List[0])) {
		id := len(in.out.Sites)
		pos := in.fset.Position(b.Lbrace)
		in.out.Sites = append(in.out.Sites, Site{File: in.fname, Line: pos.Line, Func: in.fn, Ord: in.ord})
		in.ord++
		in.put(b.Lbrace+1, 0, fmt.Sprintf(" vsimrt.Y(%d); ", id), 0)
	}
	in.block(b.List, false)
}

func (in *instrumenter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		in.block(c.(*ast.CaseClause).Body, false)
	}
}

// lits instruments the bodies of function literals.
func (in *instrumenter) lits(n ast.Node) {
	ast.Inspect(n, func(m ast.Node) bool {
		if l, ok := m.(*ast.FuncLit); ok {
			in.block(l.Body.List, true)
		}
		return true
	})
}
