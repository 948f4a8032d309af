// Command instr builds the simulated copy of the repository: it type-checks every
// non-test package, inserts a yield before each statement, exposes shared accesses to
// the race detector, puts map iteration and the packages os, io/ioutil, sync,
// sync/atomic, time and math/rand behind the simulator, and writes the result as
// packages verifsim/r/... of one module.
//
//	instr -repo DIR -sim DIR -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	sim  = flag.String("sim", "", "the /verif/sim directory")
	out  = flag.String("out", "", "")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

var shims = map[string]string{
	"os":            "verifsim/shim/simos",
	"io/ioutil":     "verifsim/shim/simioutil",
	"sync":          "verifsim/shim/simsync",
	"sync/atomic":   "verifsim/shim/simatomic",
	"time":          "verifsim/shim/simtime",
	"math/rand":     "verifsim/shim/simrand",
	"math/rand/v2":  "verifsim/shim/simrand2",
	"crypto/rand":   "verifsim/shim/simcrand",
	"io":            "verifsim/shim/simio",
	"context":       "verifsim/shim/simcontext",
	"runtime":       "verifsim/shim/simruntime",
	"path/filepath": "verifsim/shim/simfilepath",
}

var (
	fset    = token.NewFileSet()
	exports = map[string]string{}
	modPath string
	sites   []string
)

func main() {
	flag.Parse()
	must(os.MkdirAll(*out, 0755))
	scratch := filepath.Join(*out, "src")
	copyRepo(*repo, scratch)
	pkgs := list(scratch)
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
	}
	mod := filepath.Join(*out, "mod")
	n := 0
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || p.Name == "main" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		instrumentPackage(p.ImportPath, p.Dir, p.GoFiles, filepath.Join(mod, "r", rel), rel, true)
		n++
	}
	if n == 0 {
		die("no packages")
	}
	instrumentMultipart(mod)
	genShims(mod)
	var b bytes.Buffer
	b.WriteString("package sites\n\nimport \"verifsim/rt\"\n\nfunc init() { rt.Sites = table }\n\nvar table = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	write(filepath.Join(mod, "sites", "sites.go"), b.Bytes())
	writeGoMod(mod)
	os.RemoveAll(scratch)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func write(p string, b []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, b, 0644))
}

func copyRepo(src, dst string) {
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "examples" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if !strings.HasSuffix(p, ".go") && rel != "go.mod" && rel != "go.sum" {
			return nil
		}
		d, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		write(filepath.Join(dst, rel), d)
		return nil
	}))
}

func list(dir string) []*pkg {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Module", "./...",
		"os", "io", "context", "runtime", "io/ioutil", "sync", "sync/atomic", "time", "math/rand", "math/rand/v2", "crypto/rand", "mime/multipart", "errors", "path/filepath")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	var r []*pkg
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

func lookup(path string) (io.ReadCloser, error) {
	f, ok := exports[path]
	if !ok || f == "" {
		return nil, fmt.Errorf("no export data for %s", path)
	}
	return os.Open(f)
}

var imp types.Importer

// ---- text edits

type edit struct {
	pos, end int // replaced range; pos==end: insertion
	text     string
	suffix   bool // insertion that closes an expression
	seq      int
	size     int // size of the wrapped expression, for nesting at equal offsets
}

type fileCtx struct {
	src   []byte
	f     *ast.File
	name  string // for sites
	info  *types.Info
	edits []edit
	tf    *token.File
	fn    string
	pkg   *types.Package
	full  bool
	// local variables that function literals share with their function, in functions that
	// start goroutines
	captured map[*types.Var]bool
}

func (c *fileCtx) off(p token.Pos) int { return c.tf.Offset(p) }

func (c *fileCtx) insert(p token.Pos, s string) {
	o := c.off(p)
	c.edits = append(c.edits, edit{pos: o, end: o, text: s, seq: len(c.edits), size: 1 << 30})
}
func (c *fileCtx) replace(p, e token.Pos, s string) {
	c.edits = append(c.edits, edit{pos: c.off(p), end: c.off(e), text: s, seq: len(c.edits)})
}
func (c *fileCtx) wrap(e ast.Expr, pre, post string) { c.wrapPos(e.Pos(), e.End(), pre, post) }
func (c *fileCtx) wrapPos(p, e token.Pos, pre, post string) {
	size := c.off(e) - c.off(p)
	c.edits = append(c.edits, edit{pos: c.off(p), end: c.off(p), text: pre, seq: len(c.edits), size: size})
	c.edits = append(c.edits, edit{pos: c.off(e), end: c.off(e), text: post, suffix: true, seq: len(c.edits), size: size})
}

func (c *fileCtx) apply() []byte { return []byte(c.applyTo(0, len(c.src))) }

// applyTo returns the text from one offset to another with the edits made.
func (c *fileCtx) applyTo(from, to int) string {
	es := c.edits
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// closing inserts first (inner = smaller first), then opening inserts (outer =
		// larger first), then replacements
		ka, kb := kind(a), kind(b)
		if ka != kb {
			return ka < kb
		}
		if a.suffix {
			if a.size != b.size {
				return a.size < b.size
			}
			return a.seq > b.seq
		}
		if a.size != b.size {
			return a.size > b.size
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	at := from
	for _, e := range es {
		if e.pos < at {
			die("%s: overlapping edits at offset %d", c.name, e.pos)
		}
		o.Write(c.src[at:e.pos])
		o.WriteString(e.text)
		at = e.end
	}
	o.Write(c.src[at:to])
	return o.String()
}

func kind(e edit) int {
	switch {
	case e.pos != e.end:
		return 2
	case e.suffix:
		return 0
	}
	return 1
}

// ---- packages

func instrumentPackage(path, dir string, files []string, outDir, rel string, full bool) {
	var asts []*ast.File
	var srcs [][]byte
	for _, f := range files {
		src, err := os.ReadFile(filepath.Join(dir, f))
		must(err)
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), src, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		asts = append(asts, a)
		srcs = append(srcs, src)
	}
	if imp == nil {
		imp = importer.ForCompiler(fset, "gc", lookup)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(path, fset, asts, info)
	if err != nil && full {
		die("type check %s: %v", path, err)
	}
	var zero, inits []string // what makes the package's state anew
	order := map[ast.Expr]int{}
	for i, in := range info.InitOrder {
		order[in.Rhs] = i
	}
	inits = make([]string, len(info.InitOrder))
	for i, a := range asts {
		c := &fileCtx{src: srcs[i], f: a, info: info, tf: fset.File(a.Pos()), name: filepath.Join(rel, files[i]), pkg: tp, full: full}
		c.file()
		var tail string
		if full {
			var z, last []string
			tail, z, last = c.resetters(i, order, inits)
			zero = append(zero, z...)
			inits = append(inits, last...)
		}
		b := c.apply()
		write(filepath.Join(outDir, files[i]), append(b, tail...))
	}
	if full {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport verifrt \"verifsim/rt\"\n\nfunc init() {\n\tverifrt.OnReset(verifReset)\n", tp.Name())
		for _, n := range tp.Scope().Names() {
			if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && v.Name() != "_" {
				fmt.Fprintf(&b, "\tverifrt.Root(%q, &%s)\n", rel+"."+n, n)
			}
		}
		b.WriteString("}\n\nfunc verifReset() {\n")
		for _, n := range append(zero, inits...) {
			if n != "" {
				fmt.Fprintf(&b, "\t%s()\n", n)
			}
		}
		b.WriteString("}\n")
		write(filepath.Join(outDir, "zzz_verif_reset.go"), b.Bytes())
	}
}

// resetters writes functions that give the package-level variables of a file their
// initial values again, and that run its init functions again. It returns their text and
// the names of those that come first and of those that come last; the names of the others
// go where the order of initialisation has them.
func (c *fileCtx) resetters(file int, order map[ast.Expr]int, inits []string) (text string, zero, last []string) {
	var b bytes.Buffer
	n := 0
	fn := func(body string) string {
		name := fmt.Sprintf("verifReset%d_%d", file, n)
		n++
		fmt.Fprintf(&b, "\nfunc %s() {\n\t%s\n}\n", name, body)
		return name
	}
	nth := 0
	for _, d := range c.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Name.Name == "init" && d.Recv == nil && d.Body != nil {
				name := fmt.Sprintf("verifInit%d_%d", file, nth)
				nth++
				c.replace(d.Name.Pos(), d.Name.End(), name)
				fmt.Fprintf(&b, "\nfunc init() { %s() }\n", name)
				last = append(last, name)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				var names []string
				for _, id := range v.Names {
					names = append(names, id.Name)
					if id.Name != "_" {
						zero = append(zero, fn("verifrt.Zero(&"+id.Name+")"))
					}
				}
				for i, e := range v.Values {
					o, ok := order[e]
					if !ok {
						continue
					}
					to := strings.Join(names, ", ")
					if len(v.Values) == len(names) {
						to = names[i]
					}
					if strings.Trim(to, "_, ") == "" {
						if _, call := unparen(e).(*ast.CallExpr); !call {
							continue
						}
					}
					inits[o] = fn(to + " = " + c.inst(e))
				}
			}
		}
	}
	return b.String(), zero, last
}

func (c *fileCtx) file() {
	c.insert(c.f.Name.End(), "; import verifrt \"verifsim/rt\"")
	for _, im := range c.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		np := p
		switch {
		case shims[p] != "":
			np = shims[p]
		case p == "mime/multipart":
			np = "verifsim/std/multipart"
		case modPath != "" && (p == modPath || strings.HasPrefix(p, modPath+"/")):
			np = "verifsim/r" + strings.TrimPrefix(p, modPath)
		case p == "C":
			die("%s: cgo is not supported", c.name)
		}
		if np == p {
			continue
		}
		if im.Name == nil {
			name := c.importName(im, p)
			c.replace(im.Path.Pos(), im.Path.End(), name+" "+strconv.Quote(np))
		} else {
			c.replace(im.Path.Pos(), im.Path.End(), strconv.Quote(np))
		}
	}
	for _, d := range c.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				c.fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					c.fn = types.ExprString(d.Recv.List[0].Type) + "." + c.fn
				}
				c.capture(d)
				c.block(d.Body.List)
			}
		case *ast.GenDecl:
			c.fn = "init"
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					for _, v := range s.(*ast.ValueSpec).Values {
						c.expr(v)
					}
				}
			}
		}
	}
	end := c.f.FileEnd
	o := c.off(end)
	c.edits = append(c.edits, edit{pos: o, end: o, text: "\n\nvar _ = verifrt.Y\n", seq: len(c.edits)})
}

func (c *fileCtx) importName(im *ast.ImportSpec, p string) string {
	if i := strings.LastIndex(p, "/"); true {
		base := p[i+1:]
		if pk, err := imp.Import(p); err == nil && pk.Name() != "" {
			return pk.Name()
		}
		return base
	}
	return ""
}

func (c *fileCtx) site(p token.Pos) int {
	pos := c.tf.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d %s", c.name, pos.Line, c.fn))
	return len(sites) - 1
}

func (c *fileCtx) y(p token.Pos) string { return fmt.Sprintf("verifrt.Y(%d); ", c.site(p)) }

func (c *fileCtx) block(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		c.insert(s.Pos(), c.y(s.Pos()))
		c.stmt(s)
	}
}

func (c *fileCtx) body(b *ast.BlockStmt) { // loop body
	c.insertAfterBrace(b, c.y(b.Pos()))
	c.block(b.List)
}

func (c *fileCtx) insertAfterBrace(b *ast.BlockStmt, s string) { c.insert(b.Lbrace+1, s) }

func (c *fileCtx) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		c.block(s.List)
	case *ast.ExprStmt:
		c.expr(s.X)
	case *ast.SendStmt:
		c.wrap(s.Chan, "verifrt.To(", ")")
		c.expr(s.Chan)
		c.replace(s.Chan.End(), s.Value.Pos(), ".Send(")
		c.wrap(s.Value, "", ")")
		c.expr(s.Value)
	case *ast.IncDecStmt:
		c.lhs(s.X)
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			// left sides are local variables
		} else {
			for _, l := range s.Lhs {
				c.lhs(l)
			}
		}
		c.values(s.Rhs, len(s.Lhs))
	case *ast.GoStmt:
		c.goStmt(s)
	case *ast.DeferStmt:
		c.expr(s.Call)
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			c.expr(r)
		}
	case *ast.IfStmt:
		c.stmt(s.Init)
		c.expr(s.Cond)
		c.block(s.Body.List)
		c.stmt(s.Else)
	case *ast.SwitchStmt:
		c.stmt(s.Init)
		c.expr(s.Tag)
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			for _, e := range cc.List {
				c.expr(e)
			}
			c.block(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		c.stmt(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			c.expr(a.Rhs[0].(*ast.TypeAssertExpr).X)
		case *ast.ExprStmt:
			c.expr(a.X.(*ast.TypeAssertExpr).X)
		}
		for _, cl := range s.Body.List {
			c.block(cl.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		c.selectStmt(s)
	case *ast.ForStmt:
		c.stmt(s.Init)
		c.expr(s.Cond)
		c.stmt(s.Post)
		c.body(s.Body)
	case *ast.RangeStmt:
		c.rangeStmt(s)
	case *ast.LabeledStmt:
		c.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				c.values(sp.(*ast.ValueSpec).Values, len(sp.(*ast.ValueSpec).Names))
			}
		}
	}
}

// values visits the right side of an assignment to n places.
func (c *fileCtx) values(l []ast.Expr, n int) {
	if len(l) == 1 && n == 2 {
		if u, ok := unparen(l[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			c.recvExpr(u, "Recv2")
			return
		}
	}
	for _, r := range l {
		c.expr(r)
	}
}

func (c *fileCtx) recvExpr(u *ast.UnaryExpr, fn string) {
	c.replace(u.OpPos, u.X.Pos(), "verifrt."+fn+"(")
	c.wrap(u.X, "", ")")
	c.expr(u.X)
}

// inst returns the instrumented text of an expression.
func (c *fileCtx) inst(e ast.Expr) string {
	old := c.edits
	c.edits = nil
	c.expr(e)
	r := c.applyTo(c.off(e.Pos()), c.off(e.End()))
	c.edits = old
	return r
}

func (c *fileCtx) selectStmt(s *ast.SelectStmt) {
	if len(s.Body.List) == 0 {
		c.replace(s.Pos(), s.End(), "panic(verifrt.Forever())")
		return
	}
	var names, vals []string
	dflt := false
	for _, cl := range s.Body.List {
		dflt = dflt || cl.(*ast.CommClause).Comm == nil
	}
	for i, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		k := len(names)
		name := fmt.Sprintf("verifC%d_%d", s.Pos(), k)
		head := fmt.Sprintf("case %d: ", k)
		if !dflt && i == len(s.Body.List)-1 {
			head = "default: "
		}
		recv := func(e ast.Expr) {
			u := unparen(e).(*ast.UnaryExpr)
			names, vals = append(names, name), append(vals, "verifrt.CaseRecv("+c.inst(u.X)+")")
		}
		switch m := cc.Comm.(type) {
		case nil:
			head = "default: "
		case *ast.SendStmt:
			names, vals = append(names, name), append(vals, "verifrt.To("+c.inst(m.Chan)+").Case("+c.inst(m.Value)+")")
		case *ast.ExprStmt:
			recv(m.X)
		case *ast.AssignStmt:
			recv(m.Rhs[0])
			head += c.text(m.Lhs[0])
			if len(m.Lhs) == 2 {
				head += ", " + c.text(m.Lhs[1]) + " " + m.Tok.String() + " " + name + ".V, " + name + ".Ok; "
			} else {
				head += " " + m.Tok.String() + " " + name + ".V; "
			}
		}
		c.replace(cc.Pos(), cc.Colon+1, head)
		c.block(cc.Body)
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	c.replace(s.Pos(), s.Body.Lbrace+1, "switch "+init+strings.Join(append([]string{fmt.Sprintf("verifrt.Select(%v", dflt)}, names...), ", ")+") {")
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (c *fileCtx) rangeStmt(s *ast.RangeStmt) {
	t := c.typeOf(s.X)
	if t != nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			it := fmt.Sprintf("verifIt%d", s.Pos())
			kn, vn := "_", "_"
			ka, va := "nil", "nil"
			if s.Tok == token.DEFINE {
				if !isBlank(s.Key) {
					kn = s.Key.(*ast.Ident).Name
					ka = "&" + kn
				}
				if !isBlank(s.Value) {
					vn = s.Value.(*ast.Ident).Name
					va = "&" + vn
				}
			} else {
				if !isBlank(s.Key) {
					ka = "&" + c.text(s.Key)
				}
				if !isBlank(s.Value) {
					va = "&" + c.text(s.Value)
				}
			}
			c.replace(s.For, s.X.Pos(), fmt.Sprintf("for %s, %s, %s := verifrt.Iter(", it, kn, vn))
			c.wrapPos(s.X.Pos(), s.X.End(), "", fmt.Sprintf("); %s.Next(%s, %s);", it, ka, va))
			c.expr(s.X)
			c.body(s.Body)
			return
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			it := fmt.Sprintf("verifIt%d", s.Pos())
			vn, va := "_", "nil"
			if !isBlank(s.Key) {
				if s.Tok == token.DEFINE {
					vn = s.Key.(*ast.Ident).Name
					va = "&" + vn
				} else {
					va = "&" + c.text(s.Key)
				}
			}
			c.replace(s.For, s.X.Pos(), fmt.Sprintf("for %s, %s := verifrt.IterChan(", it, vn))
			c.wrapPos(s.X.Pos(), s.X.End(), "", fmt.Sprintf("); %s.Next(%s);", it, va))
			c.expr(s.X)
			c.body(s.Body)
			return
		}
		if _, ok := t.Underlying().(*types.Slice); ok && c.full && !isNil(c.info, s.X) {
			c.wrap(s.X, "verifrt.RS(", ")")
		}
	}
	c.expr(s.X)
	c.body(s.Body)
}

func isNil(info *types.Info, e ast.Expr) bool { tv, ok := info.Types[e]; return ok && tv.IsNil() }

func (c *fileCtx) text(e ast.Expr) string { return string(c.src[c.off(e.Pos()):c.off(e.End())]) }

// goStmt: the function and its arguments are evaluated now, the call runs later.
func (c *fileCtx) goStmt(s *ast.GoStmt) {
	call := s.Call
	if l, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		c.replace(s.Go, l.Pos(), "verifrt.Go(")
		res := ""
		if r := l.Type.Results; r != nil && len(r.List) > 0 { // its results are dropped
			c.insert(l.Pos(), "func() { ")
			res = "()}"
		}
		c.block(l.Body.List)
		c.replace(call.Lparen, call.Rparen+1, res+")")
		return
	}
	var names, vals, args []string
	fun := c.text(call.Fun)
	switch c.callee(call.Fun).(type) {
	case *types.Builtin, nil:
		if _, ok := c.callee(call.Fun).(*types.Builtin); ok && fun == "close" {
			fun = "verifrt.CloseChan"
			break
		}
		names, vals = append(names, "verifF"), append(vals, c.inst(call.Fun))
		fun = "verifF"
	case *types.Func:
		if f := c.callee(call.Fun).(*types.Func); f.Type().(*types.Signature).Recv() != nil {
			names, vals = append(names, "verifF"), append(vals, c.inst(call.Fun))
			fun = "verifF"
		}
	default:
		names, vals = append(names, "verifF"), append(vals, c.inst(call.Fun))
		fun = "verifF"
	}
	for i, a := range call.Args {
		tv := c.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, c.text(a))
			continue
		}
		n := fmt.Sprintf("verifA%d", i)
		names, vals, args = append(names, n), append(vals, c.inst(a)), append(args, n)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	decl := ""
	if len(names) > 0 {
		decl = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	c.replace(s.Pos(), s.End(), fmt.Sprintf("{ %sverifrt.Go(func() { %s(%s%s) }) }", decl, fun, strings.Join(args, ", "), dots))
}

// callee is the declared function an expression names, if it does.
func (c *fileCtx) callee(e ast.Expr) types.Object {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return c.info.Uses[e]
	case *ast.SelectorExpr:
		return c.info.Uses[e.Sel]
	}
	return nil
}

func (c *fileCtx) typeOf(e ast.Expr) types.Type {
	if tv, ok := c.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := c.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := c.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// capture collects the local variables of d that its function literals use, if d starts
// goroutines.
func (c *fileCtx) capture(d *ast.FuncDecl) {
	c.captured = map[*types.Var]bool{}
	starts := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			starts = true
		case *ast.CallExpr:
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Go" || s.Sel.Name == "AfterFunc") {
				starts = true
			}
		}
		return true
	})
	if !starts {
		return
	}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		l, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := c.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Pkg() == c.pkg && v.Parent() != c.pkg.Scope() && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
					c.captured[v] = true
				}
			}
			return true
		})
		return true
	})
}

// globalVar reports whether an identifier or qualified identifier is a package-level
// variable of the repository, or a local one that goroutines may share.
func (c *fileCtx) globalVar(e ast.Expr) bool {
	var id *ast.Ident
	switch e := e.(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		if _, sel := c.info.Selections[e]; sel {
			return false
		}
		id = e.Sel
	default:
		return false
	}
	v, ok := c.info.Uses[id].(*types.Var)
	if ok && c.captured[v] {
		return true
	}
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return false
	}
	p := v.Pkg().Path()
	return p == c.pkg.Path() || p == modPath || strings.HasPrefix(p, modPath+"/")
}

// shared reports whether e denotes addressable memory that another task could reach.
func (c *fileCtx) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.shared(e.X)
	case *ast.Ident:
		return c.globalVar(e)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel, ok := c.info.Selections[e]
		if !ok {
			return c.globalVar(e)
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() {
			return true
		}
		return c.shared(e.X)
	case *ast.IndexExpr:
		switch t := under(c.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return c.shared(e.X)
		default:
			_ = t
		}
	}
	return false
}

// place visits the sub-expressions of an addressable expression without recording a
// read of the place itself.
func (c *fileCtx) place(e ast.Expr) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		c.place(e.X)
	case *ast.Ident:
	case *ast.StarExpr:
		c.expr(e.X)
	case *ast.SelectorExpr:
		if _, ok := c.info.Selections[e]; ok {
			c.base(e.X)
		}
	case *ast.IndexExpr:
		c.base(e.X)
		c.expr(e.Index)
	default:
		c.expr(e)
	}
}

// base visits the operand of a selector or index: a struct or array operand is only a
// place, a pointer or slice is read.
func (c *fileCtx) base(x ast.Expr) {
	switch under(c.typeOf(x)).(type) {
	case *types.Struct, *types.Array:
		if c.shared(x) {
			c.place(x)
			return
		}
	}
	c.expr(x)
}

func (c *fileCtx) lhs(e ast.Expr) {
	x := unparen(e)
	if ix, ok := x.(*ast.IndexExpr); ok {
		if m, ok := under(c.typeOf(ix.X)).(*types.Map); ok {
			if c.full {
				c.wrap(ix.X, "verifrt.WM(", ")")
			}
			if addressed(m.Key(), 0) && !isNil(c.info, ix.Index) {
				c.wrap(ix.Index, "verifrt.PK(", ")")
			}
			c.expr(ix.X)
			c.expr(ix.Index)
			return
		}
	}
	if c.full && c.shared(x) {
		c.wrap(x, "(*verifrt.WR(&", "))")
	}
	c.place(x)
}

var mutators = map[string]map[string]bool{ // read-only methods of library types that are not safe for concurrent use
	"bytes.Buffer":         {"Len": true, "String": true, "Bytes": true, "Cap": true, "Available": true},
	"strings.Builder":      {"Len": true, "String": true, "Cap": true},
	"bytes.Reader":         {"Len": true, "Size": true},
	"strings.Reader":       {"Len": true, "Size": true},
	"bufio.Reader":         {},
	"bufio.Writer":         {},
	"bufio.Scanner":        {},
	"math/rand.Rand":       {},
	"container/list.List":  {"Len": true, "Front": true, "Back": true},
	"text/scanner.Scanner": {},
}

// library functions that always walk through the strings they are given, to the end
var costly = func() map[string]bool {
	m := map[string]bool{}
	for _, p := range []string{"strings", "bytes"} {
		for _, f := range strings.Fields("Count Replace ReplaceAll Split SplitAfter Fields FieldsFunc Map ToLower ToUpper Title ToTitle ToValidUTF8 Runes Clone") {
			m[p+"."+f] = true
		}
	}
	for _, f := range strings.Fields("net/url.ParseQuery net/url.QueryUnescape net/url.PathUnescape net/url.QueryEscape net/url.PathEscape mime.ParseMediaType html.EscapeString html.UnescapeString unicode/utf8.RuneCountInString unicode/utf8.RuneCount strconv.Quote encoding/json.Unmarshal") {
		m[f] = true
	}
	return m
}()

func (c *fileCtx) call(e *ast.CallExpr) {
	if tv, ok := c.info.Types[e.Fun]; ok && tv.IsType() { // conversion
		if c.full && len(e.Args) == 1 {
			if b, ok := under(tv.Type).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				if _, ok := under(c.typeOf(e.Args[0])).(*types.Slice); ok {
					c.wrap(e.Args[0], "verifrt.RS(", ")")
				}
			}
		}
		for _, a := range e.Args {
			c.expr(a)
		}
		return
	}
	if id, ok := unparen(e.Fun).(*ast.Ident); ok {
		if b, ok := c.info.Uses[id].(*types.Builtin); ok {
			c.builtin(b.Name(), e)
			return
		}
	}
	c.expr(e.Fun)
	if c.full {
		if s, ok := unparen(e.Fun).(*ast.SelectorExpr); ok {
			if f, ok := c.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && !strings.HasPrefix(f.Pkg().Path(), modPath) {
				if f.FullName() == "(*bytes.Buffer).String" { // a copy of all of it
					c.wrap(e, "verifrt.SC(", ")")
				}
				fills := false
				switch f.Name() {
				case "Read", "ReadFull", "ReadAtLeast", "ReadAt":
					fills = true
				}
				if f.Pkg().Path() == "sort" {
					fills = true
				}
				for _, a := range e.Args {
					if t := c.typeOf(a); t != nil && costly[f.Pkg().Path()+"."+f.Name()] && c.info.Types[a].Value == nil && (types.Identical(t, types.Typ[types.String]) || types.Identical(t, types.NewSlice(types.Typ[types.Byte]))) {
						c.wrap(a, "verifrt.SC(", ")")
					}
					if _, ok := under(c.typeOf(a)).(*types.Slice); ok && !isNil(c.info, a) {
						if fills {
							c.wrap(a, "verifrt.CW(", ")")
						} else if !e.Ellipsis.IsValid() {
							c.wrap(a, "verifrt.RS(", ")")
						}
					}
				}
			}
		}
	}
	for _, a := range e.Args {
		c.expr(a)
	}
}

func (c *fileCtx) builtin(name string, e *ast.CallExpr) {
	switch name {
	case "new":
		return
	case "close":
		c.replace(e.Fun.Pos(), e.Fun.End(), "verifrt.CloseChan")
	case "cap":
		if _, ok := under(c.typeOf(e.Args[0])).(*types.Chan); ok {
			c.replace(e.Fun.Pos(), e.Fun.End(), "verifrt.CapChan")
		}
	case "make":
		if _, ok := under(c.typeOf(e.Args[0])).(*types.Chan); ok {
			c.replace(e.Fun.Pos(), e.Args[0].Pos(), "verifrt.MakeChan[")
			if len(e.Args) == 1 {
				c.replace(e.Args[0].End(), e.Rparen+1, "](0)")
				return
			}
			c.replace(e.Args[0].End(), e.Args[1].Pos(), "](int(")
			c.expr(e.Args[1])
			c.replace(e.Rparen, e.Rparen+1, "))")
			return
		}
		for _, a := range e.Args[1:] {
			c.expr(a)
		}
		return
	case "len":
		if t, ok := under(c.typeOf(e.Args[0])).(*types.Chan); ok {
			fn := "verifrt.LenChan"
			if t.Dir() == types.SendOnly {
				fn = "verifrt.LenSend"
			}
			c.replace(e.Fun.Pos(), e.Fun.End(), fn)
		}
		if _, ok := under(c.typeOf(e.Args[0])).(*types.Map); ok && c.full && !isNil(c.info, e.Args[0]) {
			c.wrap(e.Args[0], "verifrt.RM(", ")")
		}
	case "delete", "clear":
		if _, ok := under(c.typeOf(e.Args[0])).(*types.Map); ok && c.full {
			c.wrap(e.Args[0], "verifrt.WM(", ")")
		}
	case "append":
		if c.full && !isNil(c.info, e.Args[0]) {
			c.wrap(e.Args[0], "verifrt.AP(", ")")
			if e.Ellipsis.IsValid() && len(e.Args) == 2 && !isNil(c.info, e.Args[1]) {
				if _, ok := under(c.typeOf(e.Args[1])).(*types.Slice); ok {
					c.wrap(e.Args[1], "verifrt.RS(", ")")
				}
			}
		}
	case "copy":
		if c.full {
			if _, ok := under(c.typeOf(e.Args[0])).(*types.Slice); ok {
				c.wrap(e.Args[0], "verifrt.CW(", ")")
			}
			if _, ok := under(c.typeOf(e.Args[1])).(*types.Slice); ok && !isNil(c.info, e.Args[1]) {
				c.wrap(e.Args[1], "verifrt.RS(", ")")
			}
		}
	}
	for _, a := range e.Args {
		c.expr(a)
	}
}

// recv visits the receiver of a method selector.
func (c *fileCtx) recv(e *ast.SelectorExpr, sel *types.Selection) {
	x := e.X
	f, _ := sel.Obj().(*types.Func)
	xt := c.typeOf(x)
	_, xptr := under(xt).(*types.Pointer)
	if f != nil && len(sel.Index()) == 1 && c.full {
		sig := f.Type().(*types.Signature)
		if sig.Recv() != nil {
			rt := sig.Recv().Type()
			_, ptrRecv := rt.(*types.Pointer)
			if ptrRecv {
				rt = rt.(*types.Pointer).Elem()
			}
			if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
				key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
				if ro, ok := mutators[key]; ok && ptrRecv {
					fn := "verifrt.OBJ("
					if ro[f.Name()] {
						fn = "verifrt.OBR("
					}
					if xptr {
						c.wrap(x, fn, ")")
						c.expr(x)
						return
					}
					if c.shared(x) {
						c.wrap(x, fn+"&", ")")
						c.place(x)
						return
					}
				}
				if _, isMap := n.Underlying().(*types.Map); isMap && !ptrRecv && !xptr {
					switch f.Name() {
					case "Set", "Add", "Del":
						c.wrap(x, "verifrt.WM(", ")")
					default:
						if !strings.HasPrefix(key, modPath) {
							c.wrap(x, "verifrt.RM(", ")")
						}
					}
					c.expr(x)
					return
				}
			}
			if ptrRecv && !xptr {
				// implicit address-of
				c.place(x)
				return
			}
		}
	}
	if !xptr && types.IsInterface(xt) == false && len(sel.Index()) > 1 {
		c.base(x)
		return
	}
	if f != nil {
		if sig := f.Type().(*types.Signature); sig.Recv() != nil {
			if _, ptrRecv := sig.Recv().Type().(*types.Pointer); ptrRecv && !xptr && !types.IsInterface(xt) {
				c.place(x)
				return
			}
		}
	}
	c.expr(x)
}

func (c *fileCtx) expr(e ast.Expr) {
	if e == nil {
		return
	}
	if tv, ok := c.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		c.expr(e.X)
	case *ast.Ident:
		if c.full && c.globalVar(e) {
			c.wrap(e, "(*verifrt.RD(&", "))")
		}
	case *ast.SelectorExpr:
		sel, ok := c.info.Selections[e]
		if !ok {
			if c.full && c.globalVar(e) {
				c.wrap(e, "(*verifrt.RD(&", "))")
			}
			return
		}
		switch sel.Kind() {
		case types.FieldVal:
			if c.full && c.shared(e) {
				c.wrap(e, "(*verifrt.RD(&", "))")
				c.place(e)
				return
			}
			c.base(e.X)
		case types.MethodVal:
			c.recv(e, sel)
		}
	case *ast.IndexExpr:
		xt := under(c.typeOf(e.X))
		if _, ok := xt.(*types.Map); ok {
			if c.full {
				c.wrap(e.X, "verifrt.RM(", ")")
			}
			c.expr(e.X)
			c.expr(e.Index)
			return
		}
		if _, ok := xt.(*types.Signature); ok {
			return // instantiation
		}
		if c.full && c.shared(e) {
			c.wrap(e, "(*verifrt.RD(&", "))")
		}
		c.base(e.X)
		c.expr(e.Index)
	case *ast.SliceExpr:
		c.base(e.X)
		c.expr(e.Low)
		c.expr(e.High)
		c.expr(e.Max)
	case *ast.StarExpr:
		if c.full {
			c.wrap(e, "(*verifrt.RD(&", "))")
		}
		c.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			c.recvExpr(e, "Recv")
			return
		}
		if e.Op == token.AND {
			if _, ok := unparen(e.X).(*ast.CompositeLit); ok {
				c.expr(e.X)
			} else {
				c.place(unparen(e.X))
			}
			return
		}
		c.expr(e.X)
	case *ast.BinaryExpr:
		c.expr(e.X)
		c.expr(e.Y)
	case *ast.CallExpr:
		c.call(e)
	case *ast.TypeAssertExpr:
		c.expr(e.X)
	case *ast.KeyValueExpr:
		c.expr(e.Key)
		c.expr(e.Value)
	case *ast.CompositeLit:
		_, isStruct := under(derefT(c.typeOf(e))).(*types.Struct)
		m, isMap := under(derefT(c.typeOf(e))).(*types.Map)
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap && addressed(m.Key(), 0) && !isNil(c.info, kv.Key) {
					if cl, ok := kv.Key.(*ast.CompositeLit); !ok || cl.Type != nil {
						c.wrap(kv.Key, "verifrt.PK(", ")")
					}
				}
				if !isStruct {
					c.expr(kv.Key)
				}
				c.expr(kv.Value)
			} else {
				c.expr(el)
			}
		}
	case *ast.FuncLit:
		c.block(e.Body.List)
	}
}

// addressed says whether the identity of a value of this type may be that of an object
// in memory, which has no order of its own that is the same in every execution.
func addressed(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	switch t := under(t).(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Array:
		return addressed(t.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if addressed(t.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func derefT(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- mime/multipart from the Go distribution, with its temporary files simulated

func instrumentMultipart(mod string) {
	goroot := strings.TrimSpace(goEnv("GOROOT"))
	dir := filepath.Join(goroot, "src", "mime", "multipart")
	tmp := filepath.Join(*out, "mp")
	must(os.MkdirAll(tmp, 0755))
	files := []string{"formdata.go", "multipart.go", "writer.go"}
	if _, err := os.Stat(filepath.Join(dir, "readmimeheader.go")); err == nil {
		files = append(files, "readmimeheader.go")
	}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(dir, f))
		must(err)
		s := string(b)
		s = strings.Replace(s, "\"internal/godebug\"", "godebug \"verifsim/std/godebug\"", 1)
		if f == "readmimeheader.go" {
			s = "package multipart\n\nimport \"net/textproto\"\n\nfunc readMIMEHeader(r *textproto.Reader, maxMemory, maxHeaders int64) (textproto.MIMEHeader, error) {\n\treturn r.ReadMIMEHeader()\n}\n"
		}
		write(filepath.Join(tmp, f), []byte(s))
	}
	write(filepath.Join(mod, "std", "godebug", "godebug.go"), []byte(`// Package godebug stands in for internal/godebug.
package godebug

type Setting struct{}

func New(string) *Setting            { return &Setting{} }
func (*Setting) Value() string       { return "" }
func (*Setting) IncNonDefault()      {}
func (*Setting) Name() string        { return "" }
func (*Setting) Undocumented() bool  { return false }
func (*Setting) String() string      { return "" }
`))
	instrumentPackage("mime/multipart", tmp, files, filepath.Join(mod, "std", "multipart"), "mime/multipart", false)
	os.RemoveAll(tmp)
}

func goEnv(k string) string {
	o, err := exec.Command("go", "env", k).Output()
	must(err)
	return string(o)
}

// ---- shims

func genShims(mod string) {
	for path, ip := range shims {
		rel := strings.TrimPrefix(ip, "verifsim/")
		src := filepath.Join(*sim, rel, "over.go")
		b, err := os.ReadFile(src)
		must(err)
		write(filepath.Join(mod, rel, "over.go"), b)
		a, err := parser.ParseFile(token.NewFileSet(), src, b, 0)
		must(err)
		have := map[string]bool{}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
		tp, err := imp.Import(path)
		must(err)
		var o bytes.Buffer
		fmt.Fprintf(&o, "package %s\n\nimport real %q\n\n", a.Name.Name, path)
		n := 0
		for _, name := range tp.Scope().Names() {
			ob := tp.Scope().Lookup(name)
			if !ob.Exported() || have[name] {
				continue
			}
			switch ob := ob.(type) {
			case *types.Const:
				fmt.Fprintf(&o, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&o, "var %s = real.%s\n", name, name)
			case *types.Func:
				if ob.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&o, "var %s = real.%s\n", name, name)
			case *types.TypeName:
				if nm, ok := ob.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&o, "type %s = real.%s\n", name, name)
			default:
				continue
			}
			n++
		}
		if n > 0 {
			write(filepath.Join(mod, rel, "gen.go"), o.Bytes())
		}
	}
}

var reGo = regexp.MustCompile(`(?m)^go\s+1\.(\d+)`)

func writeGoMod(mod string) {
	b, err := os.ReadFile(filepath.Join(*out, "src", "go.mod"))
	must(err)
	gov := "1.21"
	if m := reGo.FindStringSubmatch(string(b)); m != nil {
		if v, _ := strconv.Atoi(m[1]); v > 21 {
			gov = "1." + m[1]
		}
	}
	s := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(b), "module verifsim")
	if reGo.MatchString(s) {
		s = regexp.MustCompile(`(?m)^go\s.*$`).ReplaceAllString(s, "go "+gov)
	} else {
		s += "\ngo " + gov + "\n"
	}
	s = regexp.MustCompile(`(?m)^toolchain .*$`).ReplaceAllString(s, "")
	write(filepath.Join(mod, "go.mod"), []byte(s))
	if b, err := os.ReadFile(filepath.Join(*out, "src", "go.sum")); err == nil {
		write(filepath.Join(mod, "go.sum"), b)
	}
}
