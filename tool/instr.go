package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter rewrites the library's sources at build time, by a build
// overlay, so that every source of nondeterminism goes through package rt.
// Edits are insertions into the text on the same line: line numbers stay.

const libPath = "github.com/bytedance/mockey"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	Standard   bool
	Error      *struct{ Err string }
}

// Site is one scheduling point in library code.
type Site struct {
	Pos  string
	Func string
}

type build struct {
	dir    string // build module
	stw    bool
	level  int
	bin    string
	Sites  []Site
	Stores int
	Maps   int
	MapAcc int
	Sys    int
	Asm    int
	Gos    int
	STW    int
	Files  int
	Notes  []string
}

func goEnv() []string { return os.Environ() }

func run(dir string, name string, args ...string) (string, string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	return o.String(), e.String(), err
}

func (b *build) flags() []string {
	f := []string{"-gcflags=all=-l -N", "-buildvcs=false"}
	if b.stw {
		f = append(f, "-tags", "mockey_stw")
	}
	return f
}

// makeModule lays out the build module next to nothing of /repo or /verif.
func makeModule(dir, verif, repo string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	if out, err := exec.Command("cp", "-r", filepath.Join(verif, "sim")+"/.", dir).CombinedOutput(); err != nil {
		return fmt.Errorf("%s", out)
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	// the requirements of the library are those of the build
	var req []string
	in := false
	for _, l := range strings.Split(string(gm), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
		case in && t == ")":
			in = false
		case in && t != "" && !strings.HasPrefix(t, "//"):
			req = append(req, "require "+t)
		case strings.HasPrefix(t, "require "), strings.HasPrefix(t, "replace "):
			req = append(req, t)
		}
	}
	s := "module verifsim\n\ngo 1.23\n\nrequire " + libPath + " v0.0.0\n\nreplace " + libPath + " => " + repo + "\n\n" + strings.Join(req, "\n") + "\n"
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type fileEd struct {
	src   []byte
	edits []edit
}

func (f *fileEd) add(pos, end int, text string) {
	f.edits = append(f.edits, edit{pos, end, text, len(f.edits)})
}

func (f *fileEd) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// insertions before replacements at the same place
		if (a.end == a.pos) != (b.end == b.pos) {
			return a.end == a.pos
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	at := 0
	for _, e := range f.edits {
		if e.pos < at { // overlapping: drop
			continue
		}
		o.Write(f.src[at:e.pos])
		o.WriteString(e.text)
		at = e.end
	}
	o.Write(f.src[at:])
	return o.Bytes()
}

var sysFuncs = map[string]bool{"Mmap": true, "Munmap": true, "Mprotect": true, "Syscall": true, "RawSyscall": true, "Syscall6": true, "RawSyscall6": true}

type instr struct {
	b     *build
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	f     *fileEd
	file  *ast.File
	fn    string
	used  bool
	sysU  map[string]string // package name -> keep-alive expression
	level int
}

// instrument builds the worker: instrumented library, simulator and harness.
func (b *build) instrument(work string) error {
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,SFiles,Standard,Error"}, b.flags()...)
	out, errs, err := run(b.dir, "go", append(args, "./deps")...)
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, errs)
	}
	exports := map[string]string{}
	var pk []*listPkg
	dec := json.NewDecoder(strings.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == libPath || strings.HasPrefix(p.ImportPath, libPath+"/") {
			pk = append(pk, p)
		}
	}
	sort.Slice(pk, func(i, j int) bool { return pk[i].ImportPath < pk[j].ImportPath })
	overlay := map[string]string{}
	odir := filepath.Join(work, fmt.Sprintf("ov-%v-%d", b.stw, b.level))
	if err := os.MkdirAll(odir, 0o755); err != nil {
		return err
	}
	n := 0
	write := func(path string, data []byte) error {
		n++
		o := filepath.Join(odir, fmt.Sprintf("%03d_%s", n, filepath.Base(path)))
		overlay[path] = o
		return os.WriteFile(o, data, 0o644)
	}
	b.Sites, b.Stores, b.Maps, b.MapAcc, b.Sys, b.Asm, b.Gos, b.STW, b.Files = nil, 0, 0, 0, 0, 0, 0, 0, 0
	for _, p := range pk {
		if p.Error != nil {
			return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files, srcs, names = append(files, f), append(srcs, src), append(names, path)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		tp, terr := conf.Check(p.ImportPath, fset, files, info)
		if terr != nil {
			b.Notes = append(b.Notes, fmt.Sprintf("types of %s: %v", p.ImportPath, terr))
		}
		for i, f := range files {
			in := &instr{b: b, fset: fset, info: info, pkg: tp, f: &fileEd{src: srcs[i]}, file: f, sysU: map[string]string{}, level: b.level}
			in.do()
			if len(in.f.edits) > 0 {
				b.Files++
				if err := write(names[i], in.f.apply()); err != nil {
					return err
				}
			}
		}
		// assembly
		shim := false
		for _, s := range p.SFiles {
			path := filepath.Join(p.Dir, s)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			re := regexp.MustCompile(`(?m)^([^/\n]*?)\bSYSCALL\b`)
			if c := len(re.FindAll(src, -1)); c > 0 && strings.HasSuffix(s, "_amd64.s") {
				shim = true
				b.Asm += c
				if err := write(path, re.ReplaceAll(src, []byte("${1}CALL ·zzVerifSyscall(SB)"))); err != nil {
					return err
				}
			}
		}
		if shim {
			g := "package " + p.Name + "\n\nimport \"verifsim/rt\"\n\nvar zzVerifSys = &rt.Sys\n\nvar _ = zzVerifSys\n"
			if err := write(filepath.Join(p.Dir, "zz_verif.go"), []byte(g)); err != nil {
				return err
			}
			if err := write(filepath.Join(p.Dir, "zz_verif_amd64.s"), []byte(shimAsm)); err != nil {
				return err
			}
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	ovf := filepath.Join(odir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	args = append([]string{"build", "-overlay", ovf, "-o", b.bin}, b.flags()...)
	_, errs, err = run(b.dir, "go", append(args, "./harness")...)
	if err != nil {
		return fmt.Errorf("go build: %v\n%s", err, errs)
	}
	return nil
}

const shimAsm = `#include "textflag.h"

// Stands in for SYSCALL: counts and, when told so, fails protection changes
// to writable. Uses R11 and CX only, as SYSCALL does.
TEXT ·zzVerifSyscall(SB), NOSPLIT|NOFRAME, $0-0
	CMPQ AX, $10
	JNE  do
	TESTQ $2, DX
	JZ   do
	MOVQ ·zzVerifSys(SB), R11
	ADDQ $1, 40(R11)
	CMPQ 32(R11), $0
	JNE  stopped
	ADDQ $1, 48(R11)
stopped:
	ADDQ $1, 0(R11)
	ADDQ $1, 64(R11)
	MOVQ 8(R11), CX
	CMPQ CX, $0
	JEQ  do
	CMPQ CX, 0(R11)
	JEQ  failit
	JGT  do
	CMPQ 56(R11), $0
	JEQ  do
failit:
	ADDQ $1, 24(R11)
	ADDQ $1, 72(R11)
	MOVQ 16(R11), AX
	NEGQ AX
	RET
do:
	SYSCALL
	RET
`

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *instr) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instr) do() {
	src := string(in.f.src)
	// imports of synchronisation packages
	for _, im := range in.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, name := "", ""
		switch path {
		case "sync":
			to, name = "verifsim/vsync", "sync"
		case "sync/atomic":
			to, name = "verifsim/vatomic", "atomic"
		}
		if to != "" {
			if im.Name != nil {
				in.f.add(in.off(im.Path.Pos()), in.off(im.Path.End()), strconv.Quote(to))
			} else {
				in.f.add(in.off(im.Path.Pos()), in.off(im.Path.End()), name+" "+strconv.Quote(to))
			}
		}
	}
	for _, d := range in.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			in.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				in.fn = in.text(d.Recv.List[0].Type) + "." + in.fn
			}
			if d.Body == nil {
				in.linkname(d, src)
				continue
			}
			nosplit := false
			if d.Doc != nil {
				for _, c := range d.Doc.List {
					if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") || strings.HasPrefix(c.Text, "//go:nowritebarrier") {
						nosplit = true
					}
				}
			}
			if nosplit || d.Name.Name == "init" && d.Recv == nil || strings.Contains(in.fset.Position(d.Pos()).Filename, "check_gcflags") {
				continue
			}
			in.walk(d.Body)
		case *ast.GenDecl:
			in.fn = "var"
			in.walk(d)
		}
	}
	if in.used {
		// after the package clause, on its line
		in.f.add(in.off(in.file.Name.End()), in.off(in.file.Name.End()), `; import zzrt "verifsim/rt"`)
	}
	var ks []string
	for k := range in.sysU {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		in.f.add(len(in.f.src), len(in.f.src), "\nvar _ = "+k+"."+in.sysU[k]+"\n")
	}
}

// linkname gives bodies to functions that stand for the runtime's
// stop-the-world entry points.
func (in *instr) linkname(d *ast.FuncDecl, src string) {
	re := regexp.MustCompile(`(?m)^//go:linkname ` + regexp.QuoteMeta(d.Name.Name) + `\s+runtime\.(stopTheWorld|startTheWorld)\w*`)
	m := re.FindStringSubmatchIndex(src)
	if m == nil {
		return
	}
	in.f.add(m[0], m[0]+len("//go:linkname"), "// zz:linkname")
	in.b.STW++
	in.used = true
	call := "zzrt.StopWorld()"
	if src[m[2]:m[3]] == "startTheWorld" {
		call = "zzrt.StartWorld()"
	}
	body := "{ " + call
	if d.Type.Results != nil && len(d.Type.Results.List) == 1 && len(d.Type.Results.List[0].Names) <= 1 {
		body += "; return *new(" + in.text(d.Type.Results.List[0].Type) + ")"
	}
	in.f.add(in.off(d.End()), in.off(d.End()), " "+body+" }")
}

func (in *instr) site(p token.Pos) int {
	po := in.fset.Position(p)
	name := po.Filename
	if i := strings.LastIndex(name, "/repo/"); i >= 0 {
		name = name[i+6:]
	}
	in.b.Sites = append(in.b.Sites, Site{fmt.Sprintf("%s:%d", name, po.Line), in.fn})
	return len(in.b.Sites) - 1
}

func (in *instr) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		p := in.off(s.Pos())
		if in.level >= 1 {
			in.used = true
			in.f.add(p, p, fmt.Sprintf("zzrt.Y(%d); ", in.site(s.Pos())))
		}
	}
}

func (in *instr) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.SelectorExpr:
			in.selector(n)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				twoValues(n.Values[0])
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				twoValues(n.Rhs[0])
			}
			for _, l := range n.Lhs {
				in.written(l)
			}
			in.assign(n)
		case *ast.IncDecStmt:
			in.written(n.X)
			in.incdec(n)
		case *ast.RangeStmt:
			in.mapRange(n)
		case *ast.IndexExpr:
			in.mapAccess(n, n.X, false)
		case *ast.GoStmt:
			in.goStmt(n)
		case *ast.SelectStmt:
			in.selectStmt(n)
		case *ast.SendStmt:
			if !skipped[n] {
				in.used = true
				in.f.add(in.off(n.Pos()), in.off(n.Pos()), "zzrt.Send(")
				in.f.add(in.off(n.Arrow), in.off(n.Arrow)+2, ", ")
				in.f.add(in.off(n.End()), in.off(n.End()), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skipped[n] {
				in.used = true
				to := "zzrt.Recv("
				if two[n] {
					to = "zzrt.Recv2("
				}
				in.f.add(in.off(n.OpPos), in.off(n.OpPos)+2, to)
				in.f.add(in.off(n.End()), in.off(n.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					in.used = true
					in.f.add(in.off(id.Pos()), in.off(id.End()), "zzrt.Close")
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					switch id.Name {
					case "len":
						in.mapAccess(n, n.Args[0], false)
					case "delete", "clear":
						in.mapAccess(n, n.Args[0], true)
					}
				}
			}
		case *ast.ForStmt:
			// a post statement is no place for edits
			if n.Init != nil {
				in.skip(n.Init)
			}
			if n.Post != nil {
				in.skip(n.Post)
			}
		}
		return true
	})
}

var skipped = map[ast.Node]bool{}

func (in *instr) skip(n ast.Node) { skipped[n] = true }

func (in *instr) pkgOf(id *ast.Ident) string {
	if o, ok := in.info.Uses[id].(*types.PkgName); ok {
		return o.Imported().Path()
	}
	return ""
}

func (in *instr) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	to := ""
	switch in.pkgOf(id) {
	case "syscall", "golang.org/x/sys/unix":
		if sysFuncs[n.Sel.Name] {
			to = n.Sel.Name
			in.sysU[id.Name] = "Getpagesize"
			in.b.Sys++
		}
	case "time":
		if n.Sel.Name == "Sleep" {
			to = "Sleep"
			in.sysU[id.Name] = "Now"
		}
	case "runtime":
		if n.Sel.Name == "Gosched" {
			to = "Gosched"
			in.sysU[id.Name] = "NumCPU"
		}
	}
	if to != "" {
		in.used = true
		in.f.add(in.off(n.Pos()), in.off(n.End()), "zzrt."+to)
	}
}

// shared tells whether an assignable expression may be seen by other goroutines.
func (in *instr) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.shared(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok && in.pkgOf(id) != "" {
			return true
		}
		tv, ok := in.info.Types[e.X]
		if !ok {
			return false
		}
		if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
			return true
		}
		return in.shared(e.X)
	case *ast.IndexExpr:
		tv, ok := in.info.Types[e.X]
		if !ok {
			return false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return in.shared(e.X)
		}
	case *ast.Ident:
		o, ok := in.info.Uses[e].(*types.Var)
		return ok && in.pkg != nil && o.Parent() == in.pkg.Scope()
	}
	return false
}

func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (in *instr) assign(n *ast.AssignStmt) {
	if in.level < 2 || skipped[n] || len(n.Lhs) != 1 || len(n.Rhs) != 1 || !in.shared(n.Lhs[0]) || !simple(n.Lhs[0]) {
		return
	}
	l, r := n.Lhs[0], n.Rhs[0]
	if tv, ok := in.info.Types[l]; !ok || tv.Type == nil {
		return
	}
	switch n.Tok {
	case token.ASSIGN:
		in.f.add(in.off(l.Pos()), in.off(l.Pos()), "zzrt.P(&")
		in.f.add(in.off(l.End()), in.off(r.Pos()), ").Store(")
		in.f.add(in.off(r.End()), in.off(r.End()), ")")
	case token.DEFINE:
		return
	default:
		op := strings.TrimSuffix(n.Tok.String(), "=")
		lt := in.text(l)
		in.f.add(in.off(l.End()), in.off(r.Pos()), fmt.Sprintf(" = zzrt.Ld(&%s) %s (", lt, op))
		in.f.add(in.off(r.End()), in.off(r.End()), ")")
	}
	in.used = true
	in.b.Stores++
}

func (in *instr) incdec(n *ast.IncDecStmt) {
	if in.level < 2 || skipped[n] || !in.shared(n.X) || !simple(n.X) {
		return
	}
	f := "Inc"
	if n.Tok == token.DEC {
		f = "Dec"
	}
	in.f.add(in.off(n.Pos()), in.off(n.Pos()), "zzrt."+f+"(&")
	in.f.add(in.off(n.TokPos), in.off(n.End()), ")")
	in.used = true
	in.b.Stores++
}

func (in *instr) mapRange(n *ast.RangeStmt) {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	name := func(e ast.Expr) string {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
			return id.Name
		}
		return ""
	}
	k, v := "", ""
	if n.Key != nil {
		k = name(n.Key)
	}
	if n.Value != nil {
		v = name(n.Value)
	}
	if (n.Key != nil || n.Value != nil) && n.Tok != token.DEFINE {
		return
	}
	ast.Inspect(n.X, func(x ast.Node) bool {
		if x != nil {
			in.skip(x) // it is replaced
		}
		return true
	})
	it := fmt.Sprintf("zzit%d", in.off(n.Pos()))
	x := in.text(n.X)
	var s string
	switch {
	case k != "" && v != "":
		s = fmt.Sprintf("for %s, %s, %s := zzrt.MapIter(%s); %s.Next(&%s, &%s); ", it, k, v, x, it, k, v)
	case k != "":
		s = fmt.Sprintf("for %s, %s := zzrt.MapIterK(%s); %s.Next(&%s, nil); ", it, k, x, it, k)
	case v != "":
		s = fmt.Sprintf("for %s, %s := zzrt.MapIterV(%s); %s.Next(nil, &%s); ", it, v, x, it, v)
	default:
		s = fmt.Sprintf("for %s := zzrt.MapIter0(%s); %s.Next(nil, nil); ", it, x, it)
	}
	in.f.add(in.off(n.Pos()), in.off(n.Body.Lbrace), s)
	in.used = true
	in.b.Maps++
}

// written notes that an expression is assigned to.
func (in *instr) written(e ast.Expr) {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
		in.mapAccess(x, x.X, true)
		in.skip(x)
	}
}

// mapAccess announces an access of a map.
func (in *instr) mapAccess(n ast.Node, m ast.Expr, write bool) {
	tv, ok := in.info.Types[m]
	if !ok || in.level < 2 || skipped[n] {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	f := "zzrt.MR("
	if write {
		f = "zzrt.MW("
	}
	in.used = true
	in.b.MapAcc++
	in.f.add(in.off(m.Pos()), in.off(m.Pos()), f)
	in.f.add(in.off(m.End()), in.off(m.End()), ")")
}

// two holds the receive expressions with two values.
var two = map[ast.Node]bool{}

func twoValues(e ast.Expr) {
	if u, ok := e.(*ast.UnaryExpr); ok {
		two[u] = true
	}
}

// selectStmt makes a select without default wait for the other goroutines
// first.
func (in *instr) selectStmt(n *ast.SelectStmt) {
	var ready []string
	block := true
	for _, s := range n.Body.List {
		switch c := s.(*ast.CommClause).Comm.(type) {
		case nil:
			block = false
		case *ast.SendStmt:
			in.skip(c)
			ready = append(ready, "zzrt.CanSend("+in.text(c.Chan)+")")
		default:
			var e ast.Expr
			switch c := c.(type) {
			case *ast.ExprStmt:
				e = c.X
			case *ast.AssignStmt:
				in.skip(c)
				e = c.Rhs[0]
			}
			if u, ok := e.(*ast.UnaryExpr); ok {
				in.skip(u)
				ready = append(ready, "zzrt.CanRecv("+in.text(u.X)+")")
			}
		}
	}
	if block && len(ready) > 0 {
		in.used = true
		in.f.add(in.off(n.Pos()), in.off(n.Pos()), "zzrt.Await(func() bool { return "+strings.Join(ready, " || ")+" }); ")
	}
}

func (in *instr) goStmt(n *ast.GoStmt) {
	in.used = true
	in.b.Gos++
	if _, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
		in.f.add(in.off(n.Pos()), in.off(n.Call.Pos()), "zzrt.Go(")
		in.f.add(in.off(n.Call.Lparen), in.off(n.End()), ")")
		return
	}
	in.f.add(in.off(n.Pos()), in.off(n.Call.Pos()), "zzrt.GoCall(")
	sep := ", "
	if len(n.Call.Args) == 0 {
		sep = ""
	}
	in.f.add(in.off(n.Call.Lparen), in.off(n.Call.Lparen)+1, sep)
}
