package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	main  *ssa.Package
	pkgs  []*ssa.Package
	mu    sync.Mutex
	byPkg map[string]*ssa.Package
}

// packages whose code is executed symbolically; everything else needs an intrinsic
var execPkgs = map[string]bool{
	"io": true, "io/ioutil": true, "bytes": true, "bufio": true, "strings": true, "strconv": true, "errors": true,
	"encoding/binary": true, "encoding/hex": true, "math/bits": true, "math": true, "sort": true, "slices": true, "cmp": true, "maps": true, "iter": true,
	"unicode/utf8": true, "internal/stringslite": true, "internal/bytealg": true, "internal/byteorder": true,
	"internal/abi": true, "internal/itoa": true, "container/list": true, "container/heap": true, "internal/goarch": true, "internal/strconv": true,
}

const zsszPath = "github.com/protolambda/zssz"
const harnessPath = "verif/harness"

func isUnder(p, root string) bool { return p == root || strings.HasPrefix(p, root+"/") }

func (p *Program) execPkg(path string) bool {
	return execPkgs[path] || isUnder(path, zsszPath) || isUnder(path, harnessPath)
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	return ""
}

func (p *Program) skipFn(fn *ssa.Function) bool {
	path := pkgPathOf(fn)
	if path == "" {
		return false // synthetic wrappers
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") && fn.Name() != "init" {
		return false // bound methods, thunks, promoted wrappers: the target decides
	}
	return !p.execPkg(path)
}

// allocations made by this function count as allocations of the code under test
func (p *Program) counted(fn *ssa.Function) bool {
	return !isUnder(pkgPathOf(fn), harnessPath)
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if n < 10 {
				fmt.Fprintln(os.Stderr, e)
			}
			n++
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d load errors", n)
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{fset: prog.Fset, prog: prog, main: pkgs[0], byPkg: map[string]*ssa.Package{}}
	for _, q := range prog.AllPackages() {
		p.byPkg[q.Pkg.Path()] = q
		p.pkgs = append(p.pkgs, q)
	}
	return p, nil
}

func (p *Program) namedType(pkg, name string) types.Type {
	q := p.byPkg[pkg]
	if q == nil {
		return nil
	}
	m := q.Members[name]
	if t, ok := m.(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

func (p *Program) errorStringType() types.Type {
	if t := p.namedType("runtime", "errorString"); t != nil {
		return t
	}
	return types.Typ[types.String]
}
