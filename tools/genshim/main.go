// genshim writes alias.go into each simrt/shim package: everything the real
// package exports that the shim does not define itself.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = map[string]string{"xnet": "net", "xtime": "time", "xsync": "sync", "xos": "os", "xrand": "math/rand",
	"xrandv2": "math/rand/v2", "xcrand": "crypto/rand", "xctx": "context", "xruntime": "runtime", "xlog": "log"}

func main() {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", nil)
	for dir, path := range pkgs {
		d := filepath.Join("simrt/shim", dir)
		own := map[string]bool{}
		files, _ := filepath.Glob(d + "/*.go")
		for _, f := range files {
			if strings.HasSuffix(f, "alias.go") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, dc := range af.Decls {
				switch x := dc.(type) {
				case *ast.FuncDecl:
					if x.Recv == nil {
						own[x.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range x.Specs {
						switch y := s.(type) {
						case *ast.TypeSpec:
							own[y.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range y.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := imp.Import(path)
		if err != nil {
			panic(err)
		}
		var b strings.Builder
		base := path[strings.LastIndex(path, "/")+1:]
		if base == "v2" {
			base = "rand"
		}

		names := p.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			o := p.Scope().Lookup(n)
			if !o.Exported() || own[n] {
				continue
			}

			switch x := o.(type) {
			case *types.TypeName:
				if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real_.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real_.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real_.%s\n", n, n)
			case *types.Func:
				if x.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real_.%s\n", n, n)
			}
		}
		head := fmt.Sprintf("// Code generated by tools/genshim; DO NOT EDIT.\n\npackage %s\n\n", base)
		if b.Len() > 0 {
			head += fmt.Sprintf("import real_ %q\n\n", path)
		}
		os.WriteFile(filepath.Join(d, "alias.go"), []byte(head+b.String()), 0o644)
	}
}
