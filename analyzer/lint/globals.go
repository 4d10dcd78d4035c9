package lint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
	"verif/analyzer/report"
)

type access struct {
	kind string // "load", "store", "atomic", "escape"
	in   ssa.Instruction
	fn   *ssa.Function
	what string
}

type gwalk struct {
	p      *prog.Program
	acc    map[string][]access // by path
	seen   map[string]bool
	nAddrs int
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Synthetic == "package initializer" || (fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")))
}

func syncCallee(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return path == "sync" || path == "sync/atomic"
}

// addr follows an address derived from the global location path.
func (g *gwalk) addr(v ssa.Value, path string, fn *ssa.Function) {
	key := fmt.Sprintf("a|%p|%s", v, path)
	if g.seen[key] {
		return
	}
	g.seen[key] = true
	g.nAddrs++
	refs := v.Referrers()
	if _, ok := v.(*ssa.Global); ok {
		return // handled by the caller, instruction by instruction
	}
	if refs == nil {
		return
	}
	for _, in := range *refs {
		g.use(in, v, path, in.Parent())
	}
}

func (g *gwalk) use(in ssa.Instruction, v ssa.Value, path string, fn *ssa.Function) {
	add := func(kind, what string) { g.acc[path] = append(g.acc[path], access{kind, in, fn, what}) }
	switch x := in.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		g.addr(x, path+"."+st.Field(x.Field).Name(), fn)
	case *ssa.IndexAddr:
		if x.X == v {
			g.addr(x, path+"[]", fn)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add("load", "")
			g.value(x, path, fn)
		}
	case *ssa.Store:
		if x.Addr == v {
			add("store", "")
		} else {
			add("escape", "its address is stored")
		}
	case *ssa.Phi:
		g.addr(x, path, fn)
	case *ssa.ChangeType:
		g.addr(x, path, fn)
	case *ssa.MakeInterface:
		g.value(x, path, fn)
	case *ssa.DebugRef:
	case ssa.CallInstruction:
		c := x.Common()
		callee := c.StaticCallee()
		if syncCallee(callee) {
			add("atomic", "")
			return
		}
		if callee != nil && callee.Blocks != nil && g.p.InRepo(callee) {
			for i, a := range c.Args {
				if a == v && i < len(callee.Params) {
					g.addr(callee.Params[i], path, callee)
				}
			}
			return
		}
		for _, a := range c.Args {
			if a == v {
				// a method of another package on the address of one of our globals: only a reading use is expected
				add("escape", fmt.Sprintf("its address is given to %s", c.Value))
			}
		}
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == v {
				g.addr(x.Fn.(*ssa.Function).FreeVars[i], path, x.Fn.(*ssa.Function))
			}
		}
	}
}

// value follows a (copied) value loaded from a global location: maps, slices and pointers still lead to shared memory.
func (g *gwalk) value(v ssa.Value, path string, fn *ssa.Function) {
	key := fmt.Sprintf("v|%p|%s", v, path)
	if g.seen[key] || v.Referrers() == nil {
		return
	}
	g.seen[key] = true
	for _, in := range *v.Referrers() {
		add := func(kind, what string) { g.acc[path] = append(g.acc[path], access{kind, in, in.Parent(), what}) }
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				add("store", "a map kept in it is updated")
			}
		case *ssa.FieldAddr:
			if x.X == v {
				st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				g.addr(x, path+"->"+st.Field(x.Field).Name(), fn)
			}
		case *ssa.IndexAddr:
			if x.X == v {
				g.addr(x, path+"[]", fn)
			}
		case *ssa.Lookup:
			if x.X == v {
				g.value(x, path+"[]", fn)
			}
		case *ssa.Field:
			st := x.X.Type().Underlying().(*types.Struct)
			g.value(x, path+"."+st.Field(x.Field).Name(), fn)
		case *ssa.Store:
			if x.Addr == v {
				add("store", "written through the pointer kept in it")
			}
		case *ssa.Phi:
			g.value(x, path, fn)
		case *ssa.Slice:
			if x.X == v {
				g.value(x, path, fn)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && x.X == v {
				g.value(x, path+"->", fn)
			}
		case ssa.CallInstruction:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") && len(c.Args) > 0 && c.Args[0] == v {
				add("store", "builtin "+b.Name())
			}
		}
	}
}

func guarded(in ssa.Instruction) bool {
	fn := in.Parent()
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			cal := c.Call.StaticCallee()
			if !syncCallee(cal) || (cal.Name() != "Lock" && cal.Name() != "RLock") {
				continue
			}
			if b == in.Block() {
				for _, y := range b.Instrs[i:] {
					if y == in {
						return true
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

// Globals checks how package-level state is accessed after initialisation.
func Globals(p *prog.Program, r *report.Report) {
	g := &gwalk{p: p, acc: map[string][]access{}, seen: map[string]bool{}}
	nglob := 0
	for _, pk := range p.Pkgs {
		for _, m := range pk.Members {
			if gl, ok := m.(*ssa.Global); ok && gl.Name() != "init$guard" {
				nglob++
				_ = gl
			}
		}
	}
	for _, fn := range p.Functions() {
		r.Functions[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && gl.Name() != "init$guard" && gl.Pkg != nil && strings.HasPrefix(gl.Pkg.Pkg.Path(), p.Mod) {
						g.use(in, gl, gl.Pkg.Pkg.Name()+"."+gl.Name(), fn)
					}
				}
			}
		}
	}
	atomics := 0
	for path, as := range g.acc {
		mutable := false
		for _, a := range as {
			if a.kind == "atomic" || (a.kind == "store" && !isInit(a.fn)) || (a.kind == "escape" && !isInit(a.fn)) {
				mutable = true
			}
			if a.kind == "atomic" {
				atomics++
			}
		}
		for _, a := range as {
			if isInit(a.fn) {
				continue
			}
			r.Oblige("shared-state:" + path)
			switch {
			case a.kind == "store" && !guarded(a.in):
				r.Fail(report.Violation{Rule: "unsynchronised-write", Where: p.Pos(a.in.Pos()), Func: a.fn.String(), What: fmt.Sprintf("package-level state %s is written after initialisation without synchronisation %s", path, a.what)})
			case a.kind == "escape":
				r.Fail(report.Violation{Rule: "unsynchronised-write", Where: p.Pos(a.in.Pos()), Func: a.fn.String(), What: fmt.Sprintf("the address of package-level state %s escapes: %s", path, a.what)})
			case a.kind == "load" && mutable && !guarded(a.in):
				r.Fail(report.Violation{Rule: "unsynchronised-read", Where: p.Pos(a.in.Pos()), Func: a.fn.String(), What: fmt.Sprintf("package-level state %s, which is changed after initialisation, is read without synchronisation", path)})
			}
		}
	}
	r.Analysed["package_level_variables"] = nglob
	r.Analysed["locations"] = len(g.acc)
	r.Analysed["atomic_accesses"] = atomics
}
