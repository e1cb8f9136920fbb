package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Mod is the module path of the code base that is analysed.
const Mod = "github.com/carlakc/boltnd"

// Tlv is the dependency that is analysed in full.
const Tlv = "github.com/lightningnetwork/lnd/tlv"

// deps are the dependencies whose plain scalar functions are read from source
// (conversions, constructors, predicates); all else in them needs a model.
var deps = []string{
	"github.com/lightningnetwork/lnd/lnwire",
	"github.com/lightningnetwork/lnd/routing/route",
	"github.com/lightninglabs/lndclient",
	"github.com/btcsuite/btcd/btcutil",
}

// Repo is the type-checked SSA form of the code base's current working tree.
type Repo struct {
	Dir   string
	Pkgs  map[string]*packages.Package
	SSA   map[string]*ssa.Package
	Prog  *ssa.Program
	Fset  *token.FileSet
	Funcs []*ssa.Function // every function with a body, incl. closures
	Types map[string]*types.Package
	All   map[*ssa.Function]bool
}

func findGoroot() string {
	if g := os.Getenv("SA_GOROOT"); g != "" {
		return g
	}
	const pinned = "/opt/veriftools/go1.23.12"
	if _, err := os.Stat(filepath.Join(pinned, "bin", "go")); err == nil {
		return pinned
	}
	return ""
}

// Load type-checks the packages that ship (everything but mocks and the
// integration test harness) from source, with the build's own toolchain.
func Load(dir string) (*Repo, error) {
	if g := findGoroot(); g != "" {
		os.Setenv("GOROOT", g)
		os.Setenv("PATH", filepath.Join(g, "bin")+":"+os.Getenv("PATH"))
	}
	set := func(k, v string) {
		if os.Getenv(k) == "" {
			os.Setenv(k, v)
		}
	}
	set("HOME", "/root")
	set("GOPATH", "/root/go")
	set("GOMODCACHE", "/root/go/pkg/mod")
	set("GOCACHE", "/root/.cache/go-build")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOWORK", "off")

	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule |
			packages.NeedExportFile,
		Dir: dir,
		Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, append([]string{"./...", Tlv}, deps...)...)
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s",
			strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()

	r := &Repo{
		Dir: dir, Prog: prog, Fset: prog.Fset,
		Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		Types: map[string]*types.Package{},
	}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		if p.PkgPath != Tlv && p.PkgPath != Mod && !strings.HasPrefix(p.PkgPath, Mod+"/") {
			continue
		}
		r.Pkgs[p.PkgPath] = p
		r.SSA[p.PkgPath] = spkgs[i]
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if r.Types[p.Path()] != nil {
			return
		}
		r.Types[p.Path()] = p
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	r.All = ssautil.AllFunctions(prog)
	for _, p := range spkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if fn := prog.FuncValue(n.Method(i)); fn != nil && len(fn.Blocks) > 0 {
							r.All[fn] = true
						}
					}
				}
			}
		}
	}
	for fn := range r.All {
		if fn.Blocks == nil || fn.Pkg == nil {
			continue
		}
		if r.SSA[fn.Pkg.Pkg.Path()] != fn.Pkg {
			continue
		}
		if !r.shipped(fn) {
			continue
		}
		r.Funcs = append(r.Funcs, fn)
	}
	sort.Slice(r.Funcs, func(i, j int) bool {
		if r.Funcs[i].Pos() != r.Funcs[j].Pos() {
			return r.Funcs[i].Pos() < r.Funcs[j].Pos()
		}
		return r.Funcs[i].String() < r.Funcs[j].String()
	})
	return r, nil
}

// shipped reports whether a function is part of the product (rather than of
// the mocks and harnesses the tests use, which are compiled as plain files).
func (r *Repo) shipped(fn *ssa.Function) bool {
	path := fn.Pkg.Pkg.Path()
	if path != Mod && !strings.HasPrefix(path, Mod+"/") {
		return false
	}
	if strings.HasSuffix(path, "/itest") ||
		strings.HasSuffix(path, "/testutils") {

		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			file := r.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(file, "testutils.go") {
				return false
			}
		}
	}
	return true
}

// Pos renders a position relative to the code base.
func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pos := r.Fset.Position(p)
	f := pos.Filename
	if rel, err := filepath.Rel(r.Dir, f); err == nil &&
		!strings.HasPrefix(rel, "..") {

		f = rel
	}
	return fmt.Sprintf("%s:%d", f, pos.Line)
}

// Func resolves a package level function, failing loudly: an anchor that no
// longer resolves must never make a check pass vacuously.
func (r *Repo) Func(pkg, name string) *ssa.Function {
	p := r.SSA[modPath(pkg)]
	if p == nil {
		panic(Undecided{"package " + pkg + " not found"})
	}
	f := p.Func(name)
	if f == nil {
		panic(Undecided{"function " + pkg + "." + name + " not found"})
	}
	return f
}

// Method resolves a method of a named type (pointer receiver set).
func (r *Repo) Method(pkg, typ, name string) *ssa.Function {
	t := r.Type(pkg, typ)
	m := r.lookupMethod(types.NewPointer(t), name)
	if m == nil {
		panic(Undecided{"method " + pkg + "." + typ + "." + name +
			" not found"})
	}
	return m
}

func (r *Repo) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := r.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return r.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Type resolves a named type of the code base.
func (r *Repo) Type(pkg, name string) types.Type {
	p := r.SSA[modPath(pkg)]
	if p == nil {
		panic(Undecided{"package " + pkg + " not found"})
	}
	t := p.Type(name)
	if t == nil {
		panic(Undecided{"type " + pkg + "." + name + " not found"})
	}
	return t.Type()
}

// ExtType resolves a named type of a dependency.
func (r *Repo) ExtType(path, name string) types.Type {
	p := r.Types[path]
	if p == nil {
		panic(Undecided{"dependency " + path + " not found"})
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		panic(Undecided{"type " + path + "." + name + " not found"})
	}
	return o.Type()
}

func modPath(pkg string) string {
	if pkg == "" || pkg == "boltnd" {
		return Mod
	}
	return Mod + "/" + pkg
}

// Undecided is raised when an anchor is missing or a rule cannot be decided.
type Undecided struct{ Why string }

// short abbreviates package paths in function names. The abbreviations are the
// names that models and rules are keyed by.
var shorter = strings.NewReplacer(
	"github.com/carlakc/boltnd/", "@/",
	"github.com/carlakc/boltnd.", "@.",
	"github.com/lightningnetwork/lightning-onion", "sphinx",
	"github.com/lightningnetwork/lnd/", "lnd/",
	"github.com/lightningnetwork/lnd.", "lnd.",
	"github.com/btcsuite/btcd/btcec/v2/schnorr", "schnorr",
	"github.com/btcsuite/btcd/btcec/v2", "btcec",
	"github.com/decred/dcrd/dcrec/secp256k1/v4", "secp",
	"github.com/btcsuite/btcd/", "btcd/",
	"github.com/lightninglabs/", "",
	"google.golang.org/grpc/", "grpc/",
	"google.golang.org/grpc.", "grpc.",
)

func short(s string) string { return shorter.Replace(s) }

// ExtFunc resolves a function of a dependency.
func (r *Repo) ExtFunc(path, name string) *ssa.Function {
	for _, p := range r.Prog.AllPackages() {
		if p.Pkg.Path() == path {
			if f := p.Func(name); f != nil {
				return f
			}
		}
	}
	panic(Undecided{"function " + path + "." + name + " not found"})
}
