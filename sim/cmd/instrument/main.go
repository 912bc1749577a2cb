// Command instrument rewrites Go packages so that their concurrency, time and
// I/O go to the simulator, and prints an overlay for `go build -overlay`.
//
//	instrument -out DIR -repo /repo -scen /verif/sim/scen
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Name       string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
	ImportMap  map[string]string
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

var shims = map[string]string{
	"sync":         "verifsim/rt/vsync",
	"sync/atomic":  "verifsim/rt/vatomic",
	"time":         "verifsim/rt/vtime",
	"net":          "verifsim/rt/vnet",
	"log":          "verifsim/rt/vlog",
	"runtime":      "verifsim/rt/vruntime",
	"context":      "verifsim/rt/vcontext",
	"math/rand":    "verifsim/rt/vrand",
	"math/rand/v2": "verifsim/rt/vrand",
}

// packages that may be used as they are: no concurrency, time or I/O of their
// own that a property could depend on
var pureStd = map[string]bool{
	"bytes": true, "errors": true, "fmt": true, "io": true, "math": true, "math/bits": true, "math/big": true,
	"reflect": true, "sort": true, "strconv": true, "strings": true, "unicode": true, "unicode/utf8": true,
	"unsafe": true, "encoding/binary": true, "encoding/hex": true, "encoding/json": true, "encoding/base64": true,
	"container/heap": true, "container/list": true, "container/ring": true, "bufio": true, "hash/fnv": true, "hash/crc32": true,
	"hash": true, "slices": true, "maps": true, "cmp": true, "iter": true, "os": true, "syscall": true, "runtime/debug": true,
	"text/tabwriter": true, "html": true, "regexp": true, "path": true, "encoding": true, "hash/maphash": true, "embed": true,
}

const rtPath = "verifsim/rt"
const rtName = "_vrt"

var exports = map[string]string{}
var sites int
var pureExtra []string

func main() {
	out := flag.String("out", "", "output directory")
	repo := flag.String("repo", "/repo", "repository")
	simdir := flag.String("sim", "", "simulator module directory")
	flag.Parse()
	if *out == "" || *simdir == "" {
		die("usage")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	overlay := map[string]string{}
	// the whole dependency closure of the harness, with export data
	pkgs := list(*simdir, "./scen")
	n := 0
	var resets []string
	for _, p := range pkgs {
		inRepo := p.Module != nil && p.Module.Path == "github.com/funny-falcon/go-iproto"
		isScen := p.ImportPath == "verifsim/scen" || p.ImportPath == "verifsim/rt/vcontext"
		if !inRepo && !isScen {
			continue
		}
		in := &instr{pkg: p, harness: isScen}
		files := in.run()
		for orig, src := range files {
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(orig)))
			n++
			writeIfChanged(dst, src)
			overlay[orig] = dst
		}
		if inRepo {
			resets = append(resets, p.ImportPath)
		}
	}
	_ = repo
	// the reset list, in dependency order (go list -deps order)
	var b bytes.Buffer
	b.WriteString("package scen\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tr%d %q\n", i, r)
	}
	fmt.Fprintf(&b, "\t%q\n)\n\nfunc init() { rt.NumSites = %d; ResetAll = func() {\n", rtPath, sites)
	for i := range resets {
		fmt.Fprintf(&b, "\tr%d.VerifsimReset()\n", i)
	}
	b.WriteString("} }\n")
	dst := filepath.Join(*out, "zz_reset.go")
	writeIfChanged(dst, b.Bytes())
	overlay[filepath.Join(*simdir, "scen", "zz_reset.go")] = dst
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	writeIfChanged(filepath.Join(*out, "overlay.json"), js)
	fmt.Fprintf(os.Stderr, "instrument: %d files, %d yield sites\n", n, sites)
}

func writeIfChanged(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func list(dir, pat string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Name,Module,Error,ImportMap", pat)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var ps []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s\n%s", p.ImportPath, p.Error.Err, eb.String())
		}
		exports[p.ImportPath] = p.Export
		ps = append(ps, p)
	}
	return ps
}

type instr struct {
	pkg     *pkgInfo
	harness bool
	fset    *token.FileSet
	info    *types.Info
	tpkg    *types.Package
	cur     *ast.File
	useRt   bool
	tmp     int
	// hoisted variable initialisers
	initFns []string
}

func (in *instr) fail(n ast.Node, f string, a ...interface{}) {
	die("%s: %s", in.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
}

func (in *instr) run() map[string][]byte {
	in.fset = token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range in.pkg.GoFiles {
		p := f
		if !filepath.IsAbs(p) {
			p = filepath.Join(in.pkg.Dir, f)
		}
		af, err := parser.ParseFile(in.fset, p, nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, p)
	}
	in.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	imp := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, GoVersion: "go1.24"}
	tp, err := conf.Check(in.pkg.ImportPath, in.fset, files, in.info)
	if err != nil {
		die("type check: %v", err)
	}
	in.tpkg = tp
	res := map[string][]byte{}
	// package-level variables: order of initialisation
	varOrder := in.varOrder(files)
	var resetCalls []string
	initN := 0
	for i, f := range files {
		in.cur = f
		in.useRt = false
		in.imports(f)
		var extra bytes.Buffer
		if !in.harness {
			in.hoist(f, i, &extra, varOrder)
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					initN++
					fd.Name.Name = fmt.Sprintf("verifsimInit%d", initN)
				}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					d.Body = in.block(d.Body)
				}
				d.Doc = nil
			case *ast.GenDecl:
				if in.harness {
					in.exprsIn(d)
				}
				d.Doc = nil
			}
		}
		_ = resetCalls
		f.Comments = nil
		f.Doc = nil
		var b bytes.Buffer
		for _, cg := range commentsBefore(in.fset, f) {
			_ = cg
		}
		b.WriteString("//go:build go1.21\n\n")
		var body bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&body, in.fset, stripped(f)); err != nil {
			die("print: %v", err)
		}
		b.Write(body.Bytes())
		b.WriteString("\n")
		b.Write(extra.Bytes())
		res[names[i]] = b.Bytes()
	}
	if !in.harness {
		var b bytes.Buffer
		fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nfunc VerifsimReset() {\n", in.pkg.Name)
		for _, z := range in.initFns {
			if strings.HasPrefix(z, "zero:") {
				fmt.Fprintf(&b, "\t%s()\n", z[5:])
			}
		}
		for _, v := range varOrder {
			if v.fn != "" {
				fmt.Fprintf(&b, "\t%s()\n", v.fn)
			}
		}
		for i := 1; i <= initN; i++ {
			fmt.Fprintf(&b, "\tverifsimInit%d()\n", i)
		}
		b.WriteString("}\n")
		res[filepath.Join(in.pkg.Dir, "zz_verifsim_reset.go")] = b.Bytes()
		// the original init functions still run at process start
		if initN > 0 {
			var c bytes.Buffer
			fmt.Fprintf(&c, "//go:build go1.21\n\npackage %s\n\nfunc init() {\n", in.pkg.Name)
			for i := 1; i <= initN; i++ {
				fmt.Fprintf(&c, "\tverifsimInit%d()\n", i)
			}
			c.WriteString("}\n")
			res[filepath.Join(in.pkg.Dir, "zz_verifsim_init.go")] = c.Bytes()
		}
	}
	return res
}

func commentsBefore(fset *token.FileSet, f *ast.File) []string { return nil }

func stripped(f *ast.File) *ast.File { return f }

var _ = constraint.IsGoBuild

type varInit struct {
	lhs []*types.Var
	rhs ast.Expr
	fn  string
}

func (in *instr) varOrder(files []*ast.File) []*varInit {
	var vs []*varInit
	for _, x := range in.info.InitOrder {
		vs = append(vs, &varInit{lhs: x.Lhs, rhs: x.Rhs})
	}
	return vs
}

// hoist writes reset functions for the package-level variables of file f.
func (in *instr) hoist(f *ast.File, fi int, extra *bytes.Buffer, order []*varInit) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var zero []string
			for _, n := range vs.Names {
				if n.Name != "_" {
					zero = append(zero, n.Name)
				}
			}
			if len(vs.Values) == 0 {
				if len(zero) > 0 {
					fn := fmt.Sprintf("verifsimZero%d_%d", fi, sites+in.tmp)
					in.tmp++
					in.useRt = true
					fmt.Fprintf(extra, "func %s() {\n", fn)
					for _, z := range zero {
						fmt.Fprintf(extra, "\t%s.Zero(&%s)\n", rtName, z)
					}
					extra.WriteString("}\n")
					in.initFns = append(in.initFns, "zero:"+fn)
				}
				continue
			}
			// find the matching initialisers
			for _, o := range order {
				match := false
				for _, v := range vs.Values {
					if v == o.rhs {
						match = true
					}
				}
				if !match {
					continue
				}
				fn := fmt.Sprintf("verifsimVar%d_%d", fi, in.tmp)
				in.tmp++
				o.fn = fn
				var lhs []string
				for _, l := range o.lhs {
					lhs = append(lhs, l.Name())
				}
				blank := true
				for _, l := range lhs {
					if l != "_" {
						blank = false
					}
				}
				orig := o.rhs
				o.rhs = in.expr(o.rhs)
				for i, v := range vs.Values {
					if v == orig {
						vs.Values[i] = o.rhs
					}
				}
				if blank {
					o.fn = ""
					continue
				}
				var eb bytes.Buffer
				if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&eb, in.fset, o.rhs); err != nil {
					die("print: %v", err)
				}
				fmt.Fprintf(extra, "func %s() {\n\t%s = %s\n}\n", fn, strings.Join(lhs, ", "), eb.String())
			}
		}
	}
}

// imports redirects the imports of f.
func (in *instr) imports(f *ast.File) {
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if is.Name != nil && is.Name.Name == "." && shims[path] != "" {
			in.fail(is, "dot import of %s", path)
		}
		if s := shims[path]; s != "" {
			if is.Name == nil {
				base := path[strings.LastIndexByte(path, '/')+1:]
				if path == "math/rand/v2" {
					base = "rand"
				}
				is.Name = ast.NewIdent(base)
			}
			is.Path.Value = strconv.Quote(s)
			is.Path.ValuePos = is.Pos()
			continue
		}
		first := strings.SplitN(path, "/", 2)[0]
		if first == "verifsim" || strings.HasPrefix(path, "github.com/funny-falcon/go-iproto") {
			continue
		}
		if !pureStd[path] {
			in.fail(is, "import %q has no simulated replacement", path)
		}
		if path == "io" || path == "bufio" || path == "os" {
			continue
		}
	}
	// add the rt import
	spec := &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	// keep the import used in every file
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel(rtName, "NumSites")}}}}
	k := 0
	for k < len(f.Decls) {
		if g, ok := f.Decls[k].(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			k++
			continue
		}
		break
	}
	nd := append([]ast.Decl{gd}, f.Decls[:k]...)
	nd = append(nd, f.Decls[k:]...)
	nd = append(nd, use)
	f.Decls = nd
}

func sel(x, y string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(y)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func rtc(name string, args ...ast.Expr) *ast.CallExpr { return call(sel(rtName, name), args...) }

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (in *instr) site() ast.Expr { sites++; return intLit(sites) }

var _ = sort.Strings
