// Command reexport writes a file that re-exports the whole exported
// surface of a standard library package except the listed names, so
// that a simulated replacement package offers everything the original
// does.  Development-time tool; its output is committed.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	pkg, as, out := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	for _, s := range os.Args[4:] {
		skip[s] = true
	}
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	p, err := imp.Import(pkg)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by reexport; DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", as, pkg)
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic type %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintf(&b, "// generic func %s skipped\n", n)
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		}
	}
	b.WriteString("\nvar _ = std." + pickFunc(p) + "\n")
	if err := os.WriteFile(out, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}

func pickFunc(p *types.Package) string {
	for _, n := range p.Scope().Names() {
		if f, ok := p.Scope().Lookup(n).(*types.Func); ok && f.Exported() && f.Type().(*types.Signature).TypeParams().Len() == 0 {
			return n
		}
	}
	return ""
}
