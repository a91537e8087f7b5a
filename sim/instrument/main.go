// Command instrument rewrites the Go source of the repository under test into
// an overlay in which every source of nondeterminism goes through the
// simulator runtime (package rt).  It never writes into the repository.
//
//	instrument -repo /repo -out DIR -rt DIR -harness DIR
//
// produces DIR/overlay.json and DIR/go.mod for
//
//	go build -overlay DIR/overlay.json -modfile DIR/go.mod ./zzsim/harness
//
// The rewriting is purely syntactic plus type information, keeps line numbers
// (every edit stays on its line) and falls back to leaving code native when a
// construct is not recognised.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const alias = "zzrt"

// table of package-level symbols replaced by runtime counterparts, named
// <prefix><symbol> in package rt.
var table = map[string]struct {
	prefix string
	syms   string
}{
	"time":                             {"Time", "Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker"},
	"context":                          {"Ctx", "WithCancel WithTimeout WithDeadline WithCancelCause WithTimeoutCause WithDeadlineCause WithoutCancel AfterFunc Cause"},
	"sync":                             {"Sync", "Mutex RWMutex WaitGroup Once Cond NewCond Pool OnceFunc Map"},
	"math/rand":                        {"Rand", "Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 Perm Shuffle Seed Read NormFloat64 ExpFloat64"},
	"math/rand/v2":                     {"Rand2", "IntN Int Uint32 Uint64 Float64 Perm Shuffle"},
	"os":                               {"Os", "Open Create OpenFile ReadFile WriteFile ReadDir Mkdir MkdirAll Remove RemoveAll Rename Stat Lstat MkdirTemp CreateTemp TempDir Getenv LookupEnv Setenv Unsetenv Environ Exit File Getpid Hostname Chmod Truncate Getwd UserHomeDir ExpandEnv"},
	"bufio":                            {"Bufio", "Reader NewReader NewReaderSize"},
	"io/ioutil":                        {"Ioutil", "ReadFile WriteFile ReadDir TempDir TempFile"},
	"path/filepath":                    {"Filepath", "Glob WalkDir Walk"},
	"fmt":                              {"Fmt", "Print Printf Println Scan Scanln Scanf"},
	"log":                              {"Log", "Print Printf Println Fatal Fatalf Fatalln Panic Panicf Panicln SetOutput SetPrefix SetFlags Writer Prefix Flags New Default Logger Output"},
	"os/signal":                        {"Signal", "Notify Stop NotifyContext Ignore Reset"},
	"net":                              {"Net", "Listen"},
	"net/http":                         {"Http", "Server HandleFunc Handle ListenAndServe Serve DefaultServeMux TimeoutHandler"},
	"google.golang.org/grpc":           {"Grpc", "DialContext Dial NewClient ClientConn NewServer Server WithBlock WithDefaultCallOptions WithTimeout WithUnaryInterceptor WithChainUnaryInterceptor UnaryInvoker UnaryClientInterceptor"},
	"runtime":                          {"Runtime", "NumCPU GOMAXPROCS GC Gosched NumGoroutine"},
	"runtime/debug":                    {"Debug", "FreeOSMemory SetGCPercent"},
	"flag":                             {"Flag", "Bool BoolVar Int IntVar Int64 Int64Var Uint UintVar Uint64 Uint64Var String StringVar Float64 Float64Var Duration DurationVar Parse Args Arg NArg NFlag Lookup Set Var Func PrintDefaults Parsed"},
	"github.com/BurntSushi/toml":       {"Toml", "DecodeFile"},
	"github.com/AlecAivazis/survey/v2": {"Survey", "AskOne"},
}

// package-level variables read through a call
var varTable = map[string]string{
	"os.Stdout": "OsStdout()", "os.Stderr": "OsStderr()", "os.Stdin": "OsStdin()", "os.Args": "OsArgs()",
}

var symTable = map[string]string{}

func init() {
	for p, e := range table {
		for _, s := range strings.Fields(e.syms) {
			symTable[p+"."+s] = e.prefix + s
		}
	}
	symTable["net/http.DefaultServeMux"] = "HttpDefaultServeMux()"
	for k, v := range varTable {
		symTable[k] = v
	}
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Module     *struct{ Path, Dir string }
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(3)
}

var warnings int

// ZZCOV=1: statements report their execution (see rt/cov.go); for finding out
// what the scenarios do not reach, not for checks
var (
	covFile *os.File
	covN    int
)

func warn(format string, a ...interface{}) {
	warnings++
	fmt.Fprintf(os.Stderr, "instrument: warning: "+format+"\n", a...)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	rtDir := flag.String("rt", "", "")
	harDir := flag.String("harness", "", "")
	flag.Parse()
	if err := os.RemoveAll(filepath.Join(*out, "src")); err != nil {
		die("%v", err)
	}
	must(os.MkdirAll(filepath.Join(*out, "src"), 0o755))
	if os.Getenv("ZZCOV") != "" {
		var err error
		covFile, err = os.Create(filepath.Join(*out, "cov.txt"))
		must(err)
	}

	// module files
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,CgoFiles,ImportMap,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pk := map[string]*pkgInfo{}
	var order []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	modPath := ""
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pk[p.ImportPath] = p
		order = append(order, p)
		if p.Module != nil && p.Module.Dir == *repo {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module in %s", *repo)
	}
	rtPath := modPath + "/zzsim/rt"
	overlay := map[string]string{}
	addDir := func(dir, virt string) {
		es, err := os.ReadDir(dir)
		must(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				overlay[filepath.Join(*repo, virt, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	addDir(*rtDir, "zzsim/rt")
	addDir(*harDir, "zzsim/harness")

	// dependency copied and instrumented: iterates maps, reads the clock
	depMod := "github.com/nikirill/go-crypto"
	depDir := filepath.Join(*out, "deps", "go-crypto")
	depFrom := ""
	for _, p := range order {
		if p.Module != nil && p.Module.Path == depMod {
			depFrom = p.Module.Dir
		}
	}
	modExtra := ""
	if depFrom != "" {
		os.RemoveAll(depDir)
		must(copyTree(depFrom, depDir))
		must(exec.Command("go", "mod", "edit", "-go=1.20", filepath.Join(depDir, "go.mod")).Run())
		modExtra = fmt.Sprintf("\nreplace %s => %s\n", depMod, depDir)
	}
	newMod := strings.Replace(string(mod), "\ngo 1.17", "\ngo 1.20", 1) + modExtra
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(newMod), 0o644))
	must(os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0o644))

	for _, p := range order {
		if p.Module == nil {
			continue
		}
		isRepo := p.Module.Path == modPath
		isDep := p.Module.Path == depMod
		if !isRepo && !isDep {
			continue
		}
		if strings.HasSuffix(p.ImportPath, "/lib/proto") {
			continue // generated protobuf code: no nondeterminism, shared by all nodes
		}
		if len(p.GoFiles)+len(p.CgoFiles) == 0 {
			continue
		}
		ip := &instr{pkg: p, pkgs: pk, rtPath: rtPath, yields: isRepo, globals: isRepo}
		files, err := ip.run()
		if err != nil {
			die("%s: %v", p.ImportPath, err)
		}
		for name, content := range files {
			if isRepo {
				rel, _ := filepath.Rel(*repo, filepath.Join(p.Dir, name))
				dst := filepath.Join(*out, "src", rel)
				must(os.MkdirAll(filepath.Dir(dst), 0o755))
				must(os.WriteFile(dst, content, 0o644))
				overlay[filepath.Join(p.Dir, name)] = dst
			} else {
				rel, _ := filepath.Rel(depFrom, filepath.Join(p.Dir, name))
				dst := filepath.Join(depDir, rel)
				must(os.WriteFile(dst, content, 0o644))
			}
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	fmt.Printf("instrument: %d files, %d warnings\n", len(overlay), warnings)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || strings.Contains(rel, "testdata") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

type edit struct {
	off, end int
	text     string
	seq      int
	eof      bool
}

type instr struct {
	pkg     *pkgInfo
	pkgs    map[string]*pkgInfo
	rtPath  string
	yields  bool
	globals bool

	fset *token.FileSet
	info *types.Info
	tpkg *types.Package

	// per file
	src     []byte
	tf      *token.File
	edits   []edit
	used    map[*types.PkgName]int // remaining native uses
	repl    map[*types.PkgName]int // replaced uses
	nsel    int
	parents map[ast.Node]ast.Node
	isInit  int
	fname   string // the function being walked
	fcount  int
}

func (ip *instr) run() (map[string][]byte, error) {
	ip.fset = token.NewFileSet()
	var files []*ast.File
	var names []string
	cgo := map[string]bool{}
	for _, n := range ip.pkg.CgoFiles {
		cgo[n] = true
	}
	srcs := map[string][]byte{}
	for _, n := range append(append([]string{}, ip.pkg.GoFiles...), ip.pkg.CgoFiles...) {
		path := filepath.Join(ip.pkg.Dir, n)
		b, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(ip.fset, path, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		names = append(names, n)
		srcs[n] = b
	}
	imp := importer.ForCompiler(ip.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := ip.pkg.ImportMap[path]; ok {
			path = m
		}
		p := ip.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	ip.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) {
		warn("%s: type check: %v", ip.pkg.ImportPath, err)
	}}
	ip.tpkg, _ = conf.Check(ip.pkg.ImportPath, ip.fset, files, ip.info)

	res := map[string][]byte{}
	type reinit struct{ fn string }
	var inits []string
	initFuncs := map[string]bool{}
	perFileAppend := map[string][]string{}
	var reinits []string

	// package variables, in initialisation order
	varFile := map[types.Object]string{}
	embedVar := map[types.Object]bool{}
	var allVars []string
	if ip.globals {
		for i, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					emb := hasEmbed(gd.Doc) || hasEmbed(vs.Doc)
					for _, id := range vs.Names {
						if id.Name == "_" {
							continue
						}
						o := ip.info.Defs[id]
						if o == nil {
							continue
						}
						varFile[o] = names[i]
						embedVar[o] = emb
						if !emb && !cgo[names[i]] {
							allVars = append(allVars, id.Name)
						}
					}
				}
			}
		}
	}

	renders := map[string]func(from, to token.Pos) string{}
	outs := map[string]*fileOut{}
	for i, f := range files {
		n := names[i]
		if cgo[n] {
			continue
		}
		fo := ip.file(f, srcs[n], n, i)
		outs[n] = fo
		renders[n] = fo.render
		for _, s := range fo.inits {
			inits = append(inits, s)
			initFuncs[s] = true
		}
	}
	if ip.globals {
		for k, in := range ip.info.InitOrder {
			var lhs []string
			file := ""
			skip := false
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
				if fl, ok := varFile[v]; ok {
					file = fl
				}
				if embedVar[v] {
					skip = true
				}
			}
			if skip || file == "" || outs[file] == nil {
				continue
			}
			all_ := true
			for _, l := range lhs {
				if l != "_" {
					all_ = false
				}
			}
			if all_ {
				continue
			}
			name := fmt.Sprintf("zzreinit_%d", k)
			expr := outs[file].render(in.Rhs.Pos(), in.Rhs.End())
			perFileAppend[file] = append(perFileAppend[file],
				fmt.Sprintf("func %s() { %s = %s }", name, strings.Join(lhs, ", "), expr))
			reinits = append(reinits, name)
		}
	}
	for n, fo := range outs {
		content := fo.finish()
		for _, a := range perFileAppend[n] {
			content = append(content, []byte("\n"+a+"\n")...)
		}
		res[n] = content
	}
	if ip.globals {
		var sb strings.Builder
		pn := ip.pkg.Name
		if pn == "main" {
			pn = "zzmain"
		}
		fmt.Fprintf(&sb, "package %s\n\nimport zzrt %q\n\nfunc init() {\n", pn, ip.rtPath)
		for _, s := range inits {
			fmt.Fprintf(&sb, "\t%s()\n", s)
		}
		fmt.Fprintf(&sb, "\tzzrt.RegPkg(%q, []interface{}{", ip.pkg.ImportPath)
		for _, v := range allVars {
			fmt.Fprintf(&sb, "&%s, ", v)
		}
		fmt.Fprintf(&sb, "}, []func(){")
		for _, r := range reinits {
			fmt.Fprintf(&sb, "%s, ", r)
		}
		for _, r := range inits {
			fmt.Fprintf(&sb, "%s, ", r)
		}
		fmt.Fprintf(&sb, "})\n}\n")
		res["zz_gen.go"] = []byte(sb.String())
	}
	return res, nil
}

func hasEmbed(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

type fileOut struct {
	ip    *instr
	src   []byte
	tf    *token.File
	edits []edit
	inits []string
}

func (fo *fileOut) sorted() {
	sort.SliceStable(fo.edits, func(i, j int) bool {
		if fo.edits[i].off != fo.edits[j].off {
			return fo.edits[i].off < fo.edits[j].off
		}
		// pure insertions before replacements at the same offset
		ii, jj := fo.edits[i].end == fo.edits[i].off, fo.edits[j].end == fo.edits[j].off
		if ii != jj {
			return ii
		}
		return fo.edits[i].seq < fo.edits[j].seq
	})
}

func (fo *fileOut) render(from, to token.Pos) string {
	// insertions exactly at the end belong to the expression (closing parens)
	f, t := fo.tf.Offset(from), fo.tf.Offset(to)
	fo.sorted()
	var sb strings.Builder
	pos := f
	for _, e := range fo.edits {
		if e.off < f || e.off > t || e.end > t || e.off < pos || e.eof {
			continue
		}
		sb.Write(fo.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(fo.src[pos:t])
	// keep the function on one logical statement: newlines are fine inside
	return sb.String()
}

func (fo *fileOut) finish() []byte {
	fo.sorted()
	return []byte(fo.renderAll())
}

func (fo *fileOut) renderAll() string {
	var sb strings.Builder
	pos := 0
	for _, e := range fo.edits {
		if e.off < pos {
			warn("overlapping edit %q", e.text)
			continue
		}
		sb.Write(fo.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(fo.src[pos:])
	return sb.String()
}

func (ip *instr) off(p token.Pos) int { return ip.tf.Offset(p) }

func (ip *instr) insert(p token.Pos, s string) {
	ip.edits = append(ip.edits, edit{off: ip.off(p), end: ip.off(p), text: s, seq: len(ip.edits)})
}

// insertClose inserts closing text after a node: inner nodes close first.
func (ip *instr) replace(from, to token.Pos, s string) {
	ip.edits = append(ip.edits, edit{off: ip.off(from), end: ip.off(to), text: s, seq: len(ip.edits)})
}

func (ip *instr) text(n ast.Node) string {
	return string(ip.src[ip.off(n.Pos()):ip.off(n.End())])
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (ip *instr) typeOf(e ast.Expr) types.Type {
	if tv, ok := ip.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := ip.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := ip.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (ip *instr) isChan(e ast.Expr) bool {
	t := ip.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (ip *instr) isMap(e ast.Expr) bool {
	t := ip.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (ip *instr) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o := ip.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

// post-order closing edits need inner-first ordering; ast traversal below adds
// closings after visiting children, which yields increasing seq inner-first.
func (ip *instr) file(f *ast.File, src []byte, name string, idx int) *fileOut {
	ip.src = src
	ip.tf = ip.fset.File(f.Pos())
	ip.edits = nil
	ip.used = map[*types.PkgName]int{}
	ip.repl = map[*types.PkgName]int{}
	fo := &fileOut{ip: ip, src: src, tf: ip.tf}
	isMain := f.Name.Name == "main"

	pkgName := f.Name.Name
	if isMain {
		pkgName = "zzmain"
	}
	ip.replace(f.Name.Pos(), f.Name.End(), fmt.Sprintf("%s; import %s %q; var _ = %s.Alive", pkgName, alias, ip.rtPath, alias))
	// a var declaration may not precede imports: put the keep-alive at the end
	ip.edits[len(ip.edits)-1].text = fmt.Sprintf("%s; import %s %q", pkgName, alias, ip.rtPath)

	ninit := 0
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && ip.globals {
				n := fmt.Sprintf("zzinit_%d_%d", idx, ninit)
				ninit++
				ip.replace(d.Name.Pos(), d.Name.End(), n)
				fo.inits = append(fo.inits, n)
			}
			if d.Recv == nil && d.Name.Name == "main" && isMain {
				ip.replace(d.Name.Pos(), d.Name.End(), "ZZMain")
			}
			if d.Recv != nil {
				ip.walkNode(d.Recv)
			}
			if d.Type != nil {
				ip.walkNode(d.Type)
			}
			if d.Body != nil {
				ip.fname, ip.fcount = ip.tpkg.Path()+"."+d.Name.Name, 0
				if d.Recv != nil && len(d.Recv.List) == 1 {
					ip.fname += " " + ip.text(d.Recv.List[0].Type)
				}
				ip.entry(d.Body)
				ip.walkNode(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			ip.walkNode(d)
		}
	}
	// imports whose every use was replaced become blank
	for _, is := range f.Imports {
		var pn *types.PkgName
		if is.Name != nil {
			if o, ok := ip.info.Defs[is.Name].(*types.PkgName); ok {
				pn = o
			}
		} else if o, ok := ip.info.Implicits[is].(*types.PkgName); ok {
			pn = o
		}
		if pn == nil {
			continue
		}
		if ip.repl[pn] > 0 && ip.used[pn] == 0 {
			if is.Name != nil {
				ip.replace(is.Name.Pos(), is.Name.End(), "_")
			} else {
				ip.insert(is.Path.Pos(), "_ ")
			}
		}
	}
	ip.edits = append(ip.edits, edit{off: len(src), end: len(src), text: "\nvar _ = " + alias + ".Alive\n", seq: len(ip.edits), eof: true})
	fo.edits = ip.edits
	fo.sorted()
	return fo
}

// entry marks the start of a function body.
func (ip *instr) entry(b *ast.BlockStmt) {
	if !ip.yields || b == nil {
		return
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%s#%d", ip.fname, ip.fcount)
	ip.fcount++
	ip.insert(b.Lbrace+1, fmt.Sprintf(" %s.F(%d);", alias, h.Sum32()))
}

func (ip *instr) walkNode(n ast.Node) {
	if n == nil {
		return
	}
	switch n := n.(type) {
	case *ast.FuncLit:
		ip.entry(n.Body)
	case *ast.BlockStmt:
		if n == nil {
			return
		}
		ip.stmts(n.List)
		return
	case *ast.CaseClause:
		for _, e := range n.List {
			ip.walkNode(e)
		}
		ip.stmts(n.Body)
		return
	case *ast.SelectStmt:
		ip.selectStmt(n)
		return
	case *ast.GoStmt:
		ip.goStmt(n)
		return
	case *ast.SendStmt:
		if ip.isChan(n.Chan) {
			ip.insert(n.Chan.Pos(), alias+".SendTo(")
			ip.walkNode(n.Chan)
			ip.replace(n.Arrow, n.Arrow+2, ")(")
			ip.walkNode(n.Value)
			ip.insert(n.Value.End(), ")")
			return
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for _, l := range n.Lhs {
					ip.walkNode(l)
				}
				ip.recv(u, "Recv2")
				return
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				if n.Type != nil {
					ip.walkNode(n.Type)
				}
				ip.recv(u, "Recv2")
				return
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			ip.recv(n, "Recv")
			return
		}
	case *ast.RangeStmt:
		if ip.isMap(n.X) {
			ip.rangeIter(n, "MapStart", 2)
			return
		}
		if ip.isChan(n.X) {
			ip.rangeIter(n, "ChanStart", 1)
			return
		}
	case *ast.CallExpr:
		if ip.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
			ip.replace(n.Fun.Pos(), n.Fun.End(), alias+".Close")
			ip.walkNode(n.Args[0])
			return
		}
		if (ip.isBuiltin(n.Fun, "len") || ip.isBuiltin(n.Fun, "cap")) && len(n.Args) == 1 && ip.isChan(n.Args[0]) {
			fn := ".ChanLen"
			if ip.isBuiltin(n.Fun, "cap") {
				fn = ".ChanCap"
			}
			ip.replace(n.Fun.Pos(), n.Fun.End(), alias+fn)
			ip.walkNode(n.Args[0])
			return
		}
		if ip.isBuiltin(n.Fun, "make") && len(n.Args) >= 2 {
			t := ip.typeOf(n.Args[0])
			if t != nil {
				if _, ok := t.Underlying().(*types.Slice); ok {
					ip.walkNode(n.Args[0])
					for _, a := range n.Args[1:] {
						tv := ip.info.Types[a]
						bt, isB := types.Type(nil), false
						if tv.Type != nil {
							bt = tv.Type.Underlying()
							_, isB = bt.(*types.Basic)
						}
						if tv.Value == nil && isB {
							ip.insert(a.Pos(), alias+".MkLen(")
							ip.walkNode(a)
							ip.insert(a.End(), ")")
						} else {
							ip.walkNode(a)
						}
					}
					return
				}
			}
		}
	case *ast.SelectorExpr:
		if ip.selector(n) {
			return
		}
	}
	// generic descent, children in source order
	ip.children(n)
}

func (ip *instr) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		ip.walkNode(c)
		return false
	})
}

func (ip *instr) selector(n *ast.SelectorExpr) bool {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := ip.info.Uses[id].(*types.PkgName)
	if !ok {
		return false
	}
	key := pn.Imported().Path() + "." + n.Sel.Name
	if r, ok := symTable[key]; ok {
		ip.replace(n.Pos(), n.End(), alias+"."+r)
		ip.repl[pn]++
		return true
	}
	ip.used[pn]++
	return true
}

func (ip *instr) recv(u *ast.UnaryExpr, fn string) {
	ip.replace(u.OpPos, u.OpPos+2, alias+"."+fn+"(")
	ip.walkNode(u.X)
	ip.insert(u.X.End(), ")")
}

func (ip *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if ip.yields {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				if covFile != nil {
					ip.insert(s.Pos(), fmt.Sprintf("%s.Cov(%d); ", alias, covN))
					ps := ip.fset.Position(s.Pos())
					fmt.Fprintf(covFile, "%d %s:%d\n", covN, ps.Filename, ps.Line)
					covN++
				}
				ip.insert(s.Pos(), alias+".Y(); ")
			}
		}
		ip.walkNode(s)
	}
}

func (ip *instr) rangeIter(n *ast.RangeStmt, fn string, nv int) {
	vars := []ast.Expr{n.Key, n.Value}[:nv]
	names := make([]string, nv)
	post := ""
	if n.Tok == token.DEFINE {
		allBlank := true
		for i, v := range vars {
			names[i] = "_"
			if v != nil {
				names[i] = ip.text(v)
			}
			if names[i] != "_" {
				allBlank = false
			}
		}
		_ = allBlank
	} else {
		var l, r []string
		for i, v := range vars {
			names[i] = "_"
			if v != nil && ip.text(v) != "_" {
				names[i] = fmt.Sprintf("zzv%d", i)
				l = append(l, ip.text(v))
				r = append(r, names[i])
			}
		}
		if len(l) > 0 {
			post = strings.Join(l, ", ") + " = " + strings.Join(r, ", ") + "; "
		}
	}
	lhs := strings.Join(names, ", ")
	// from after "for" to the start of X
	ip.replace(n.For+3, n.X.Pos(), fmt.Sprintf(" zzit, %s := %s.%s(", lhs, alias, fn))
	ip.walkNode(n.X)
	ip.insert(n.X.End(), fmt.Sprintf("); zzit.OK; %s = zzit.Next()", lhs))
	ip.insert(n.Body.Lbrace+1, post)
	ip.stmts(n.Body.List)
}

func (ip *instr) goStmt(n *ast.GoStmt) {
	c := n.Call
	ell := "false"
	if c.Ellipsis.IsValid() {
		ell = "true"
		ip.replace(c.Ellipsis, c.Ellipsis+3, "")
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, isB := ip.info.Uses[id].(*types.Builtin); isB {
			// go close(ch) and friends
			ip.replace(n.Go, n.Go+2, alias+".Go(func() {")
			ip.walkNode(c)
			ip.insert(c.End(), "}, false)")
			return
		}
	}
	ip.replace(n.Go, n.Go+2, alias+".Go(")
	ip.walkNode(c.Fun)
	ip.replace(c.Lparen, c.Lparen+1, ","+ell+",")
	for _, a := range c.Args {
		ip.walkNode(a)
	}
}

func (ip *instr) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		ip.replace(n.Select, n.Select+token.Pos(len("select")), "for")
		ip.insert(n.Body.Lbrace+1, alias+".Block() ")
		return
	}
	hasDefault := false
	last := -1
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
		} else {
			last = i
		}
	}
	if last < 0 { // only a default clause
		ip.replace(n.Select, n.Select+token.Pos(len("select")), "switch")
		for _, c := range n.Body.List {
			ip.stmts(c.(*ast.CommClause).Body)
		}
		return
	}
	id := ip.nsel
	ip.nsel++
	var lhs, rhs []string
	k := 0
	sub := func(e ast.Expr) string {
		// render with nested rewriting: collect edits of the subtree apart
		saved := ip.edits
		ip.edits = nil
		ip.walkNode(e)
		fo := &fileOut{src: ip.src, tf: ip.tf, edits: ip.edits}
		s := fo.render(e.Pos(), e.End())
		ip.edits = saved
		return s
	}
	type pending struct {
		cc   *ast.CommClause
		text string
	}
	var pend []pending
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			continue
		}
		v := fmt.Sprintf("zzc%d_%d", id, k)
		head := fmt.Sprintf("case %d:", k)
		if i == last && !hasDefault {
			head = "default:"
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			lhs = append(lhs, v)
			rhs = append(rhs, fmt.Sprintf("%s.CaseSend(%s)(%s)", alias, sub(s.Chan), sub(s.Value)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			lhs = append(lhs, v)
			rhs = append(rhs, fmt.Sprintf("%s.CaseRecv(%s)", alias, sub(u.X)))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			lhs = append(lhs, v)
			rhs = append(rhs, fmt.Sprintf("%s.CaseRecv(%s)", alias, sub(u.X)))
			var l []string
			for _, e := range s.Lhs {
				l = append(l, sub(e))
			}
			r := v + ".V"
			if len(l) == 2 {
				r += ", " + v + ".Ok"
			}
			head += " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + r + ";"
		}
		pend = append(pend, pending{cc, head})
		k++
	}
	oneLine := func(s string) string { return s }
	ip.replace(n.Select, n.Select+token.Pos(len("select")), fmt.Sprintf("switch %s := %s; %s.Select(%v, %s)",
		strings.Join(lhs, ", "), oneLine(strings.Join(rhs, ", ")), alias, hasDefault, strings.Join(lhs, ", ")))
	for _, p := range pend {
		ip.replace(p.cc.Case, p.cc.Colon+1, p.text)
	}
	for _, c := range n.Body.List {
		ip.stmts(c.(*ast.CommClause).Body)
	}
}

var _ = strconv.Itoa
