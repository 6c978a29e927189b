// Command simgen derives the simulated build from the current working
// tree of the repository: it rewrites, into a scratch directory, every
// non-test source file of the packages under simulation (and of the
// three storage libraries they use) so that operating system, clock,
// randomness, locks, goroutines and network go through the simulator,
// and writes an overlay and a module file with which the go command
// builds them.  The repository itself is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, Version string }
}

var (
	repo  = "/repo"
	verif = "/verif"
	work  string
)

const modPath = "github.com/netauth/netauth"

// roots are the programs and libraries that run under simulation.
var roots = []string{"./cmd/netauthd", "./cmd/nsutil", "./internal/crypto/nocrypto", "./pkg/netauth/cache/fs",
	"./pkg/netauth/cache/memory", "./internal/plugin/tree/...", "./pkg/plugin/tree/...", "./plugins/tree/fail2lock"}

// cliRoots are the programs that run next to a server; they get a copy
// of every package with package-level state.
var cliRoots = []string{"./cmd/netauth"}

const cliPath = modPath + "/internal/zzcli"

var cliImports = map[string]string{
	"github.com/spf13/viper": cliPath + "/viper", "os/user": "simuser", "fmt": "simfmt",
	"github.com/bgentry/speakeasy": "simspeakeasy",
}

// variant tells how a package is generated.
type variant struct {
	imports map[string]string
	out     string // below work
	path    func(p *pkg) string
	pkgName func(p *pkg) string
}

func (v *variant) dir(p *pkg) string {
	return filepath.Join(repo, strings.TrimPrefix(v.path(p), modPath+"/"))
}

// inside moves an import path into the copy.
func inside(path string) string {
	rel := strings.Split(strings.TrimPrefix(path, modPath+"/"), "/")
	for i := range rel {
		if rel[i] == "internal" {
			rel[i] = "zint"
		}
	}
	return cliPath + "/" + strings.Join(rel, "/")
}

var replaceImports = map[string]string{
	"os": "simos", "io/ioutil": "simioutil", "path/filepath": "simfilepath", "sync": "simsync",
	"time": "simtime", "math/rand": "simmrand", "crypto/rand": "simcrand", "crypto/rsa": "simrsa",
	"os/signal": "simsignal", "net": "simnet", "google.golang.org/grpc": "simgrpc",
	"google.golang.org/grpc/credentials": "simcredentials", "crypto/tls": "simtls",
	"github.com/hashicorp/go-plugin": "simplugin", "net/rpc": "simrpc",
}

var extra = map[string]map[string]string{
	"github.com/prologic/bitcask": {"golang.org/x/sys/unix": "simunix", "golang.org/x/exp/mmap": "simmmap"},
}

// copied modules; the value tells whether statements get preemption points.
var copied = map[string]bool{
	"github.com/prologic/bitcask":       true,
	"github.com/google/renameio":        true,
	"github.com/the-maldridge/bsfilter": false,
	"github.com/netauth/protocol":       false,
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if v := os.Getenv("SIM_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("SIM_VERIF"); v != "" {
		verif = v
	}
	work = os.Args[1]
	os.MkdirAll(work, 0755)
	pk := list(roots)
	byPath := map[string]*pkg{}
	for _, p := range pk {
		byPath[p.ImportPath] = p
	}
	overlay := map[string]string{}
	mods := map[string]string{}
	srvV := &variant{replaceImports, "ov", vpath, func(p *pkg) string {
		if p.Name == "main" {
			return "zz" + filepath.Base(p.Dir)
		}
		return ""
	}}
	var sim []*pkg
	for _, p := range pk {
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Path == modPath {
			sim = append(sim, p)
			genPkg(p, byPath, overlay, true, true, srvV)
		} else if soft, ok := copied[p.Module.Path]; ok {
			dst := filepath.Join(work, "mod", filepath.Base(p.Module.Path))
			if mods[p.Module.Path] == "" {
				mods[p.Module.Path] = dst
				copyMod(p.Module.Dir, dst)
			}
			genDep(p, byPath, dst, soft)
		}
	}
	cli, cliV := genCli(overlay)
	genHarness(sim, overlay, srvV, cli, cliV)
	writeJSON(filepath.Join(work, "overlay.json"), map[string]interface{}{"Replace": overlay})
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	var b bytes.Buffer
	b.Write(gm)
	fmt.Fprintf(&b, "\nrequire verif.local/sim v0.0.0\n\nreplace verif.local/sim => %s/sim\n", verif)
	var ms []string
	for m := range mods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		fmt.Fprintf(&b, "\nreplace %s => %s\n", m, mods[m])
	}
	write(filepath.Join(work, "go.mod"), b.Bytes())
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	write(filepath.Join(work, "go.sum"), gs)
}

func write(p string, b []byte) {
	os.MkdirAll(filepath.Dir(p), 0755)
	if o, err := os.ReadFile(p); err == nil && bytes.Equal(o, b) {
		return
	}
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func writeJSON(p string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	write(p, b)
}

// genCli generates the copy.
func genCli(overlay map[string]string) ([]*pkg, *variant) {
	pk := list(cliRoots)
	byPath := map[string]*pkg{}
	im := map[string]string{}
	for k, v := range replaceImports {
		im[k] = v
	}
	for k, v := range cliImports {
		im[k] = v
	}
	var sim []*pkg
	for _, p := range pk {
		byPath[p.ImportPath] = p
		if p.Module != nil && p.Module.Path == modPath {
			sim = append(sim, p)
			im[p.ImportPath] = inside(p.ImportPath)
		}
		if p.ImportPath == "github.com/spf13/viper" {
			for _, f := range p.GoFiles {
				overlay[filepath.Join(repo, "internal", "zzcli", "viper", f)] = filepath.Join(p.Dir, f)
			}
		}
	}
	v := &variant{im, "ovcli", func(p *pkg) string { return inside(p.ImportPath) }, func(p *pkg) string {
		if p.Name == "main" {
			return "zz" + filepath.Base(p.Dir)
		}
		return ""
	}}
	for _, p := range sim {
		genPkg(p, byPath, overlay, true, true, v)
	}
	return sim, v
}

func list(roots []string) []*pkg {
	// A private module file keeps the repository's own untouched.
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	write(filepath.Join(work, "list.mod"), gm)
	write(filepath.Join(work, "list.sum"), gs)
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,CgoFiles,Imports,ImportMap,Module"}, roots...)
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(work, "list.mod"), "GO111MODULE=on", "GOPROXY=off", "CGO_ENABLED=0")
	c.Stderr = os.Stderr
	out, err := c.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var r []*pkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		r = append(r, &p)
	}
	return r
}

func copyMod(src, dst string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.Name() == "go.mod" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			write(filepath.Join(dst, rel), b)
		}
		return nil
	})
	if err != nil {
		die("copy: %v", err)
	}
	if _, err := os.Stat(filepath.Join(dst, "go.mod")); err != nil {
		die("module %s has no go.mod", src)
	}
}

type loaded struct {
	fset  *token.FileSet
	files []*ast.File
	names []string
	src   [][]byte
	info  *types.Info
}

func load(p *pkg, byPath map[string]*pkg) *loaded {
	l := &loaded{fset: token.NewFileSet()}
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(l.fset, fn, b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		l.files = append(l.files, a)
		l.names = append(l.names, fn)
		l.src = append(l.src, b)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := byPath[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	l.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: importer.ForCompiler(l.fset, "gc", lookup), Error: func(error) {}, FakeImportC: true}
	cfg.Check(p.ImportPath, l.fset, l.files, l.info)
	return l
}

type edit struct {
	off, del int
	ins      string
	ord      int
}

type editor struct {
	src   []byte
	edits []edit
}

func (e *editor) add(off, del int, ins string) {
	e.edits = append(e.edits, edit{off, del, ins, len(e.edits)})
}

func (e *editor) bytes() []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		if e.edits[i].off != e.edits[j].off {
			return e.edits[i].off < e.edits[j].off
		}
		return e.edits[i].ord < e.edits[j].ord
	})
	var b bytes.Buffer
	pos := 0
	for _, x := range e.edits {
		if x.off < pos {
			continue // inside a deleted region
		}
		b.Write(e.src[pos:x.off])
		b.WriteString(x.ins)
		pos = x.off + x.del
	}
	b.Write(e.src[pos:])
	return b.Bytes()
}

var constraint = regexp.MustCompile(`(?m)^//\s*(go:build|\+build)\s.*$`)

type ginfo struct {
	initN int
	calls []string // zzv functions in init order
	inits []string
}

// rewrite produces the simulated version of one file.
func rewrite(l *loaded, i int, imports map[string]string, soft, reinit bool, g *ginfo, pkgName string, varFn map[*ast.ValueSpec]string) []byte {
	f := l.files[i]
	src := l.src[i]
	off := func(p token.Pos) int { return l.fset.PositionFor(p, false).Offset }
	e := &editor{src: src}

	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		if r, ok := imports[path]; ok {
			if !strings.Contains(r, "/") {
				r = "verif.local/sim/" + r
			}
			e.add(off(im.Path.Pos()), len(im.Path.Value), `"`+r+`"`)
		}
	}
	if pkgName != "" {
		e.add(off(f.Name.Pos()), len(f.Name.Name), pkgName)
	}
	e.add(off(f.Name.End()), 0, `; import zzrt "verif.local/sim/simrt"`)

	var tail bytes.Buffer
	tail.WriteString("\nvar _ = zzrt.Y\n")

	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	if reinit {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("zzinit%d", g.initN)
					g.initN++
					g.inits = append(g.inits, n)
					e.add(off(x.Name.Pos()), len("init"), n)
					if pkgName != "zzfail2lock" {
						// A plugin's configuration is not there yet.
						fmt.Fprintf(&tail, "func init() { %s() }\n", n)
					}
				}
				if x.Recv == nil && x.Name.Name == "main" && pkgName != "" {
					e.add(off(x.Name.Pos()), len("main"), "ZZMain")
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					fn := varFn[vs]
					if fn == "" {
						continue
					}
					if len(vs.Values) == 0 {
						fmt.Fprintf(&tail, "func %s() {", fn)
						for _, n := range vs.Names {
							if n.Name != "_" {
								fmt.Fprintf(&tail, " zzrt.Zero(&%s);", n.Name)
							}
						}
						tail.WriteString(" }\n")
						continue
					}
					var lhs []string
					for _, n := range vs.Names {
						lhs = append(lhs, n.Name)
					}
					if len(vs.Values) == len(vs.Names) {
						for k := range lhs {
							fmt.Fprintf(&tail, "func %s_%d() { %s = %s }\n", fn, k, lhs[k], text(vs.Values[k]))
						}
					} else {
						fmt.Fprintf(&tail, "func %s_0() { %s = %s }\n", fn, strings.Join(lhs, ", "), text(vs.Values[0]))
					}
				}
			}
		}
	}

	ylist := func(list []ast.Stmt) {
		for _, s := range list {
			if soft {
				if _, empty := s.(*ast.EmptyStmt); !empty {
					e.add(off(s.Pos()), 0, "zzrt.Y();")
				}
			}
			if hasChanOp(s) {
				e.add(off(s.End()), 0, `; zzrt.Chan()`)
			}
		}
	}
	clauses := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.SelectStmt:
			clauses[x.Body] = true
		case *ast.BlockStmt:
			if !clauses[x] {
				ylist(x.List)
			}
		case *ast.CaseClause:
			ylist(x.Body)
		case *ast.CommClause:
			e.add(off(x.Colon)+1, 0, " zzrt.Chan();")
			ylist(x.Body)
		case *ast.GoStmt:
			c := x.Call
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				e.add(off(x.Go), 2, "zzrt.Go(")
				e.add(off(fl.End()), off(c.End())-off(fl.End()), ")")
			} else if c.Ellipsis == token.NoPos {
				e.add(off(x.Go), 2, "zzrt.GoCall(")
				sep := ""
				if len(c.Args) > 0 {
					sep = ","
				}
				e.add(off(c.Lparen), 1, sep)
			}
		case *ast.RangeStmt:
			tv, ok := l.info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Chan); ok {
				e.add(off(x.Body.Lbrace)+1, 0, " zzrt.Chan();")
				return true
			}
			mt, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				return true
			}
			rangeMap(e, l, x, mt, off)
		}
		return true
	})

	out := e.bytes()
	// Replace build constraints that sit before the package clause.
	pk := bytes.Index(out, []byte("package "))
	head := out
	for {
		// find the real package clause: first line starting with it
		if pk == 0 || out[pk-1] == '\n' {
			break
		}
		k := bytes.Index(out[pk+1:], []byte("package "))
		if k < 0 {
			break
		}
		pk += 1 + k
	}
	head = constraint.ReplaceAll(out[:pk], []byte("//"))
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.21\n\n//line %s:1\n", l.names[i])
	b.Write(head)
	b.Write(out[pk:])
	b.Write(tail.Bytes())
	return b.Bytes()
}

func hasChanOp(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.DeclStmt:
	default:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return true
	})
	return found
}

func rangeMap(e *editor, l *loaded, x *ast.RangeStmt, mt *types.Map, off func(token.Pos) int) {
	blank := func(n ast.Expr) bool {
		if n == nil {
			return true
		}
		id, ok := n.(*ast.Ident)
		return ok && id.Name == "_"
	}
	xs := string(e.src[off(x.X.Pos()):off(x.X.End())])
	name := func(n ast.Expr) string { return string(e.src[off(n.Pos()):off(n.End())]) }
	var hdr string
	switch {
	case blank(x.Key) && blank(x.Value):
		return
	case x.Tok == token.DEFINE:
		switch {
		case blank(x.Value):
			hdr = fmt.Sprintf("zzit, %s := zzrt.Range1(%s); zzit.Next(&%s, nil); ", name(x.Key), xs, name(x.Key))
		case blank(x.Key):
			hdr = fmt.Sprintf("zzit, %s := zzrt.RangeV(%s); zzit.Next(nil, &%s); ", name(x.Value), xs, name(x.Value))
		default:
			hdr = fmt.Sprintf("zzit, %s, %s := zzrt.Range2(%s); zzit.Next(&%s, &%s); ", name(x.Key), name(x.Value), xs, name(x.Key), name(x.Value))
		}
	default:
		k, v := "nil", "nil"
		if !blank(x.Key) {
			if t := l.info.TypeOf(x.Key); t == nil || !types.Identical(t, mt.Key()) {
				return
			}
			k = "&" + name(x.Key)
		}
		if !blank(x.Value) {
			if t := l.info.TypeOf(x.Value); t == nil || !types.Identical(t, mt.Elem()) {
				return
			}
			v = "&" + name(x.Value)
		}
		hdr = fmt.Sprintf("zzit := zzrt.Range(%s); zzit.Next(%s, %s); ", xs, k, v)
	}
	if containsFuncLit(x.X) {
		return
	}
	st := off(x.For) + 3
	e.add(st, off(x.X.End())-st, " "+hdr)
}

func containsFuncLit(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			f = true
		}
		return true
	})
	return f
}

// prepVars assigns a re-initialization function to every package
// level variable and returns their order.
func prepVars(l *loaded) (map[*ast.ValueSpec]string, []string) {
	varFn := map[*ast.ValueSpec]string{}
	at := map[types.Object]string{} // variable -> call
	var zero []string
	n := 0
	for _, f := range l.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				all := true
				for _, id := range vs.Names {
					if id.Name != "_" {
						all = false
					}
				}
				if all {
					continue
				}
				fn := fmt.Sprintf("zzv%d", n)
				n++
				varFn[vs] = fn
				for k, id := range vs.Names {
					o := l.info.Defs[id]
					if o == nil {
						continue
					}
					switch {
					case len(vs.Values) == 0:
						if k == 0 {
							zero = append(zero, fn)
						}
					case len(vs.Values) == len(vs.Names):
						at[o] = fmt.Sprintf("%s_%d", fn, k)
					default:
						at[o] = fn + "_0"
					}
				}
			}
		}
	}
	calls := zero
	seen := map[string]bool{}
	for _, in := range l.info.InitOrder {
		for _, v := range in.Lhs {
			if c := at[v]; c != "" && !seen[c] {
				seen[c] = true
				calls = append(calls, c)
			}
		}
	}
	return varFn, calls
}

func genPkg(p *pkg, byPath map[string]*pkg, overlay map[string]string, soft, reinit bool, v *variant) {
	l := load(p, byPath)
	varFn, calls := prepVars(l)
	g := &ginfo{}
	out := filepath.Join(work, v.out, strings.TrimPrefix(p.ImportPath, modPath+"/"))
	pkgName, vdir := v.pkgName(p), v.dir(p)
	name := p.Name
	if pkgName != "" {
		name = pkgName
	}
	for i, fn := range l.names {
		b := rewrite(l, i, v.imports, soft, reinit, g, pkgName, varFn)
		o := filepath.Join(out, filepath.Base(fn))
		write(o, b)
		overlay[filepath.Join(vdir, filepath.Base(fn))] = o
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// ZZReinit puts the package back into its initial state.\nfunc ZZReinit() {\n", name)
	for _, c := range append(calls, g.inits...) {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	b.WriteString("}\n")
	o := filepath.Join(out, "zz_reinit.go")
	write(o, b.Bytes())
	overlay[filepath.Join(vdir, "zz_reinit.go")] = o
}

func genDep(p *pkg, byPath map[string]*pkg, dst string, soft bool) {
	l := load(p, byPath)
	im := map[string]string{}
	if p.Module.Path == "github.com/netauth/protocol" {
		im["google.golang.org/grpc"] = "simgrpc"
	} else {
		for k, v := range replaceImports {
			im[k] = v
		}
		for k, v := range extra[p.Module.Path] {
			im[k] = v
		}
	}
	rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
	for i, fn := range l.names {
		b := rewrite(l, i, im, soft, false, &ginfo{}, "", nil)
		write(filepath.Join(dst, rel, filepath.Base(fn)), b)
	}
}

// inOrder lists packages in the order the runtime initializes them.
func inOrder(sim []*pkg) []*pkg {
	in := map[string]bool{}
	for _, p := range sim {
		in[p.ImportPath] = true
	}
	done := map[string]bool{}
	var order []*pkg
	for len(order) < len(sim) {
		var best *pkg
		for _, p := range sim {
			if done[p.ImportPath] {
				continue
			}
			ready := true
			for _, i := range p.Imports {
				if in[i] && !done[i] {
					ready = false
				}
			}
			if ready && (best == nil || p.ImportPath < best.ImportPath) {
				best = p
			}
		}
		if best == nil {
			die("import cycle")
		}
		done[best.ImportPath] = true
		order = append(order, best)
	}
	return order
}

// genHarness adds the harness package and the list of packages to
// re-initialize.
func genHarness(sim []*pkg, overlay map[string]string, srvV *variant, cli []*pkg, cliV *variant) {
	hdir := filepath.Join(repo, "internal", "zzverif")
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, f := range fs {
		overlay[filepath.Join(hdir, filepath.Base(f))] = f
	}
	order, corder := inOrder(sim), inOrder(cli)
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, srvV.path(p))
	}
	for i, p := range corder {
		fmt.Fprintf(&b, "\tc%d %q\n", i, cliV.path(p))
	}
	b.WriteString(")\n\nvar reinits = []struct {\n\tpath string\n\tf    func()\n}{\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\t{%q, p%d.ZZReinit},\n", p.ImportPath, i)
	}
	b.WriteString("}\n\nvar cliReinits = []func(){\n")
	for i := range corder {
		fmt.Fprintf(&b, "\tc%d.ZZReinit,\n", i)
	}
	b.WriteString("}\n\nvar mains = map[string]func(){\n")
	for i, p := range order {
		if p.Name == "main" {
			fmt.Fprintf(&b, "\t%q: p%d.ZZMain,\n", filepath.Base(p.Dir), i)
		}
	}
	for i, p := range corder {
		if p.Name == "main" {
			fmt.Fprintf(&b, "\t%q: c%d.ZZMain,\n", filepath.Base(p.Dir), i)
		}
	}
	b.WriteString("}\n")
	o := filepath.Join(work, "ov", "zz_gen.go")
	write(o, b.Bytes())
	overlay[filepath.Join(hdir, "zz_gen.go")] = o
}

func vpath(p *pkg) string {
	if p.Name == "main" {
		return modPath + "/internal/zz" + filepath.Base(p.Dir)
	}
	return p.ImportPath
}
