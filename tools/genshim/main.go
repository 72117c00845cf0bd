// Command genshim writes re-exports of a standard library package.
// It is run by hand when the Go toolchain changes; its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// usage: genshim DIR import/path FUNCS-REGEXP|none [exclude names...]
func main() {
	dir, path, funcs := os.Args[1], os.Args[2], os.Args[3]
	own := map[string]bool{}
	for _, n := range os.Args[4:] {
		own[n] = true
	}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, fn := range files {
		if filepath.Base(fn) == "zz_reexport.go" {
			continue
		}
		f, err := parser.ParseFile(fset, fn, nil, 0)
		if err != nil {
			panic(err)
		}
		for name := range f.Scope.Objects {
			own[name] = true
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	re := regexp.MustCompile("^(" + funcs + ")$")
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by tools/genshim; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pkg.Name(), path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	var consts, typs, vars []string
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			consts = append(consts, fmt.Sprintf("%s = real.%s", n, n))
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			typs = append(typs, fmt.Sprintf("%s = real.%s", n, n))
		case *types.Var:
			vars = append(vars, fmt.Sprintf("%s = real.%s", n, n))
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			if funcs != "none" && re.MatchString(n) {
				vars = append(vars, fmt.Sprintf("%s = real.%s", n, n))
			}
		}
	}
	sect := func(kw string, xs []string) {
		if len(xs) > 0 {
			fmt.Fprintf(&b, "%s (\n\t%s\n)\n\n", kw, strings.Join(xs, "\n\t"))
		}
	}
	sect("const", consts)
	sect("type", typs)
	sect("var", vars)
	if len(consts)+len(typs)+len(vars) == 0 {
		fmt.Fprintf(&b, "var _ = real.%s\n", names[0])
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_reexport.go"), out, 0o644); err != nil {
		panic(err)
	}
}
