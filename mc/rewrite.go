package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// rewrite produces copies of the library sources in which threads, channels and locks go through the controlled
// scheduler, and an overlay for go build.  It works on the current tree, whatever constructs it uses.
func rewrite(dir string) error {
	type pkg struct {
		ImportPath, Dir, Export string
		GoFiles                 []string
		Module                  *struct{ Path, GoVersion string }
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module", "-tags", "purego", ".")
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var repo []pkg
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "github.com/sp301415/tfhe-go" && !strings.HasSuffix(p.ImportPath, "math/num") {
			repo = append(repo, p)
		}
	}
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	for _, p := range repo {
		fset := token.NewFileSet()
		var files []*ast.File
		srcs := map[*ast.File][]byte{}
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				return err
			}
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments)
			if err != nil {
				return err
			}
			files = append(files, a)
			srcs[a] = b
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })}
		if p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
		level := "P1"
		if strings.Contains(p.ImportPath, "/math/") || strings.Contains(p.ImportPath, "/internal/") {
			level = "P2"
		}
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, src: srcs[f], level: level}
			text := r.file(f)
			to := filepath.Join(dir, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(to, []byte(text), 0o644); err != nil {
				return err
			}
			overlay.Replace[filepath.Join(p.Dir, p.GoFiles[i])] = to
		}
	}
	b, _ := json.Marshal(overlay)
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	level string
	edits []edit
	n     int
	skip  map[ast.Node]bool
	tail  string
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) put(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), text, len(r.edits)})
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) name(s string) string {
	r.n++
	return fmt.Sprintf("vs_%s%d", s, r.n)
}

func (r *rewriter) chanDir(e ast.Expr) (types.ChanDir, bool) {
	t := r.info.Types[e].Type
	if t == nil {
		return 0, false
	}
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return 0, false
	}
	return c.Dir(), true
}

func (r *rewriter) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if p, ok := r.info.Uses[id].(*types.PkgName); ok {
		return p.Imported().Path()
	}
	return ""
}

func (r *rewriter) file(f *ast.File) string {
	r.skip = map[ast.Node]bool{}
	otherRuntime := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && r.pkgOf(s.X) == "runtime" {
			switch s.Sel.Name {
			case "NumCPU", "GOMAXPROCS", "Gosched", "NumGoroutine":
			default:
				otherRuntime = true
			}
		}
		return true
	})
	for _, im := range f.Imports {
		to, name := "", ""
		switch im.Path.Value {
		case `"sync"`:
			to, name = "verifmc/vsched/vsync", "sync"
		case `"sync/atomic"`:
			to, name = "verifmc/vsched/vatomic", "atomic"
		case `"runtime"`:
			if !otherRuntime {
				to, name = "verifmc/vsched/vruntime", "runtime"
			}
		}
		if to != "" {
			if im.Name != nil {
				name = ""
			}
			r.put(im.Path.Pos(), im.Path.End(), name+" \""+to+"\"")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		r.node(n)
		return true
	})
	if len(r.edits) > 0 {
		r.put(f.Name.End(), f.Name.End(), `; import vsched "verifmc/vsched"`)
		r.tail += "\nvar _ = vsched.P1\n"
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		return a.from < b.from
	})
	var sb strings.Builder
	at := 0
	for _, e := range r.edits {
		if e.from < at {
			panic(fmt.Sprintf("harness error: overlapping edits at %s:%d", r.fset.Position(f.Pos()).Filename, e.from))
		}
		sb.Write(r.src[at:e.from])
		sb.WriteString(e.text)
		at = e.to
	}
	sb.Write(r.src[at:])
	sb.WriteString(r.tail)
	return sb.String()
}

func (r *rewriter) node(n ast.Node) {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body != nil {
			r.put(n.Body.Lbrace+1, n.Body.Lbrace+1, " vsched."+r.level+"(); ")
		}
	case *ast.SendStmt:
		if r.skip[n] {
			return
		}
		r.put(n.Chan.Pos(), n.Chan.Pos(), "vsched.Send(")
		r.put(n.Arrow, n.Arrow+2, ")(")
		r.put(n.Value.End(), n.Value.End(), ")")
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.recv2(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.recv2(n.Values[0])
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.skip[n] {
			r.put(n.OpPos, n.OpPos+2, "vsched.Recv(")
			r.put(n.X.End(), n.X.End(), ")")
		}
	case *ast.SelectorExpr:
		if r.pkgOf(n.X) == "time" && n.Sel.Name == "Sleep" {
			r.put(n.Pos(), n.End(), "vsched.Sleep")
			r.tail += "\nvar _ = " + r.text(n.X) + ".Now\n"
		}
		if r.pkgOf(n.X) == "runtime" {
			// kept when other functions of the package are used
			for _, s := range []string{"NumCPU", "Gosched"} {
				if n.Sel.Name == s && !r.replacedRuntime() {
					r.put(n.Pos(), n.End(), "vsched."+map[string]string{"NumCPU": "NumCPU", "Gosched": "Yield"}[s])
				}
			}
		}
	case *ast.CallExpr:
		if r.skip[n] {
			return
		}
		switch r.builtin(n.Fun) {
		case "close":
			r.put(n.Fun.Pos(), n.Fun.End(), "vsched.Close")
		case "len":
			if d, ok := r.chanDir(n.Args[0]); ok {
				f := "vsched.LenR"
				if d == types.SendOnly {
					f = "vsched.LenS"
				}
				r.put(n.Fun.Pos(), n.Fun.End(), f)
			}
		}
	case *ast.RangeStmt:
		if _, ok := r.chanDir(n.X); !ok {
			return
		}
		it := r.name("it")
		id, isId := n.Key.(*ast.Ident)
		switch {
		case n.Key == nil || isId && id.Name == "_":
			r.put(n.For, n.X.Pos(), fmt.Sprintf("for %s := vsched.Range0(", it))
			r.put(n.X.End(), n.X.End(), fmt.Sprintf("); %s.Next(nil); ", it))
		case n.Tok == token.DEFINE:
			r.put(n.For, n.X.Pos(), fmt.Sprintf("for %s, %s := vsched.Range(", it, id.Name))
			r.put(n.X.End(), n.X.End(), fmt.Sprintf("); %s.Next(&%s); ", it, id.Name))
		default:
			r.put(n.For, n.X.Pos(), fmt.Sprintf("for %s := vsched.Range0(", it))
			r.put(n.X.End(), n.X.End(), fmt.Sprintf("); %s.Next(&(%s)); ", it, r.text(n.Key)))
		}
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SelectStmt:
		r.selectStmt(n)
	}
}

// replacedRuntime tells whether the import of runtime is replaced in this file.
func (r *rewriter) replacedRuntime() bool {
	for _, e := range r.edits {
		if strings.HasSuffix(e.text, `"verifmc/vsched/vruntime"`) {
			return true
		}
	}
	return false
}

func (r *rewriter) recv2(e ast.Expr) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW || r.skip[u] {
		return
	}
	r.skip[u] = true
	r.put(u.OpPos, u.OpPos+2, "vsched.Recv2(")
	r.put(u.X.End(), u.X.End(), ")")
}

func (r *rewriter) constant(e ast.Expr) bool {
	t := r.info.Types[e]
	return t.Value != nil && t.Value.Kind() != constant.Unknown || t.IsNil()
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	c := n.Call
	call := ""
	head := "{ "
	fun := ast.Unparen(c.Fun)
	global := r.builtin(fun) != ""
	var id *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		if r.pkgOf(f.X) != "" {
			id = f.Sel
		}
	}
	if id != nil {
		if _, ok := r.info.Uses[id].(*types.Func); ok {
			global = true
		}
	}
	last := c.Fun.End()
	if global {
		call = r.text(c.Fun)
		if r.builtin(fun) == "close" {
			call = "vsched.Close"
		}
		r.put(n.Go, c.Fun.End(), head+"_ = 0")
		r.skip[c] = true
	} else {
		call = r.name("f")
		r.put(n.Go, c.Fun.Pos(), head+call+" := ")
	}
	args := ""
	for i, a := range c.Args {
		if i > 0 {
			args += ", "
		}
		if r.constant(a) {
			args += r.text(a)
			r.put(last, a.End(), "")
		} else {
			v := r.name("a")
			r.put(last, a.Pos(), "; "+v+" := ")
			args += v
		}
		last = a.End()
	}
	if c.Ellipsis.IsValid() {
		args += "..."
	}
	r.put(last, c.Rparen+1, fmt.Sprintf("; vsched.Go(func() { %s(%s) }) }", call, args))
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	var vars, vals []string
	def := "false"
	i := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			def = "true"
			continue
		}
		v := r.name("c")
		vars = append(vars, v)
		body := ""
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			r.skip[s] = true
			vals = append(vals, fmt.Sprintf("vsched.SendCase(%s)(%s)", r.text(s.Chan), r.text(s.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(s.X).(*ast.UnaryExpr)
			r.skip[u] = true
			vals = append(vals, fmt.Sprintf("vsched.RecvCase(%s)", r.text(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
			r.skip[u] = true
			vals = append(vals, fmt.Sprintf("vsched.RecvCase(%s)", r.text(u.X)))
			body = r.text(s.Lhs[0])
			rhs := v + ".V"
			if len(s.Lhs) == 2 {
				body += ", " + r.text(s.Lhs[1])
				rhs += ", " + v + ".OK"
			}
			body = " " + body + " " + s.Tok.String() + " " + rhs + ";"
		}
		r.put(c.Case, c.Colon+1, fmt.Sprintf("case %d:%s", i, body))
		i++
	}
	h := "switch "
	if len(vars) > 0 {
		h += strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	h += "vsched.Select(" + strings.Join(append([]string{def}, vars...), ", ") + ") "
	r.put(n.Select, n.Body.Lbrace, h)
}
