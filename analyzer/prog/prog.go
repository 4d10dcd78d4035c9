// Package prog loads /repo's current source (type-checked, in SSA form).
package prog

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  []*ssa.Package // packages of the repository (without tests, without drivers)
	Main  *ssa.Package   // the package at the module's root
	Spec  *ssa.Package   // driver package, if an overlay was given
	Mod   string
	Sizes types.Sizes
}

// Env is the offline build environment.
func Env() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "GO111MODULE=on")
	return env
}

// SpecDir is the virtual directory the driver package lives in.
const SpecDir = "zz_verif_spec"

// Load loads the repository at dir; specs maps file names to the contents of driver files.
func Load(dir string, specs map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Dir: dir, Fset: fset, Env: Env(),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes | packages.NeedModule,
	}
	patterns := []string{"./..."}
	if len(specs) > 0 {
		cfg.Overlay = map[string][]byte{}
		for n, b := range specs {
			cfg.Overlay[filepath.Join(dir, SpecDir, n)] = b
		}
		patterns = append(patterns, "./"+SpecDir)
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	sp, spkgs := ssautil.AllPackages(pkgs, 0)
	sp.Build()
	p := &Program{Dir: dir, Fset: fset, Prog: sp}
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		if pk.Module != nil && p.Mod == "" {
			p.Mod = pk.Module.Path
		}
		p.Sizes = pk.TypesSizes
		if strings.HasSuffix(pk.PkgPath, "/"+SpecDir) {
			p.Spec = spkgs[i]
			continue
		}
		p.Pkgs = append(p.Pkgs, spkgs[i])
	}
	for _, k := range p.Pkgs {
		if k.Pkg.Path() == p.Mod {
			p.Main = k
		}
	}
	if p.Main == nil {
		return nil, fmt.Errorf("no package at the root of module %q", p.Mod)
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].Pkg.Path() < p.Pkgs[j].Pkg.Path() })
	return p, nil
}

// InRepo tells whether fn is declared in the repository's own packages.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == p.Mod || strings.HasPrefix(o.Pkg().Path(), p.Mod+"/")
		}
		return false
	}
	return pk.Pkg.Path() == p.Mod || strings.HasPrefix(pk.Pkg.Path(), p.Mod+"/")
}

// Functions lists every function with a body in the repository's packages (closures, methods and wrappers included).
func (p *Program) Functions() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Blocks == nil || !p.InRepo(fn) {
			continue
		}
		if p.Spec != nil && fn.Pkg == p.Spec {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d:%d", f, ps.Line, ps.Column)
}

// InRepoPkg tells whether a package belongs to the repository (or to the drivers).
func (p *Program) InRepoPkg(pk *ssa.Package) bool {
	path := pk.Pkg.Path()
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}
