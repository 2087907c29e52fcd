// Command reexport writes zz_reexport.go for a shim package: every exported object of the
// original that the shim does not define itself. Run by hand when the Go version changes.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	orig, dir, name := os.Args[1], os.Args[2], os.Args[3]
	fset := token.NewFileSet()
	own := map[string]bool{}
	pkgs, err := parser.ParseDir(fset, dir, func(f os.FileInfo) bool { return f.Name() != "zz_reexport.go" }, 0)
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if t, ok := s.(*ast.TypeSpec); ok {
							own[t.Name.Name] = true
						}
						if v, ok := s.(*ast.ValueSpec); ok {
							for _, n := range v.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(orig)
	if err != nil {
		panic(err)
	}
	names := p.Scope().Names()
	sort.Strings(names)
	var b strings.Builder
	base := p.Name()
	fmt.Fprintf(&b, "// Code generated by cmd/reexport. DO NOT EDIT.\n\npackage %s\n\nimport %s %q\n\n", name, base, orig)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, base, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, base, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		}
	}
	if err := os.WriteFile(dir+"/zz_reexport.go", []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}
