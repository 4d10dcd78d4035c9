package lint

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
	"verif/analyzer/report"
)

// Error flow: an error which may be non-nil must, on every path which follows, be returned (itself, or any error known
// to be non-nil in its place), left in an error cell of the caller, or end in a panic.

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

// ErrFlow is the analysis of one program.
type ErrFlow struct {
	p      *prog.Program
	r      *report.Report
	scope  map[*ssa.Function]bool
	never  map[*ssa.Function]bool // none of its error results is ever non-nil
	always map[*ssa.Function]bool // its error result is always non-nil
	mono   map[*ssa.Function]bool // functions which store nothing but non-nil errors through error pointers
	nsrc   int
	npath  int
}

// scopeFrom lists the repository's functions reachable from the roots (through calls, closures and function values).
// With stop, functions of the exported interface other than the roots are not entered.
func scopeFrom(p *prog.Program, roots func(fn *ssa.Function) bool, stop bool) map[*ssa.Function]bool {
	all := p.Functions()
	var work []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && p.InRepo(fn) && !seen[fn] {
			if stop && fn.Parent() == nil && token.IsExported(fn.Name()) && !roots(fn) {
				return
			}
			seen[fn] = true
			work = append(work, fn)
		}
	}
	for _, fn := range all {
		if roots(fn) {
			add(fn)
		}
	}
	byMethod := map[string][]*ssa.Function{}
	for _, fn := range all {
		if fn.Signature.Recv() != nil {
			byMethod[fn.Name()] = append(byMethod[fn.Name()], fn)
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && !stop {
					for _, m := range byMethod[c.Common().Method.Name()] {
						add(m)
					}
				}
			}
		}
	}
	return seen
}

func retErr(fn *ssa.Function) []int {
	var out []int
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErr(res.At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func returns(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 || (b != fn.Blocks[0] && len(b.Preds) == 0) {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// external functions whose error is never nil, or always nil in practice
func extAlways(fn *ssa.Function) bool {
	switch fn.String() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

func extNever(fn *ssa.Function) bool {
	s := fn.String()
	for _, pre := range []string{"(*bytes.Buffer).Write", "(*strings.Builder).Write"} {
		if strings.HasPrefix(s, pre) {
			return true
		}
	}
	return false
}

func constNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// nonNilErr tells whether v is always a non-nil error (structurally).
func (e *ErrFlow) nonNilErr(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		return extAlways(f) || (e.always[f] && f.Signature.Results().Len() == 1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && e.always[f] {
				return true
			}
		}
		return false
	case *ssa.MakeInterface:
		switch x.X.Type().Underlying().(type) {
		case *types.Pointer:
			_, ok := x.X.(*ssa.Alloc)
			return ok
		case *types.Interface:
			return false
		}
		return true
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if ed != x && !e.nonNilErr(ed, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return e.globalErr(g)
			}
		}
	}
	return false
}

// globalErr: a package-level error variable which is only stored non-nil errors by initialisers.
func (e *ErrFlow) globalErr(g *ssa.Global) bool {
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), e.p.Mod) {
		return strings.HasPrefix(g.Name(), "Err") || g.Name() == "EOF"
	}
	n := 0
	for _, fn := range e.p.Functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					if !isInit(fn) || !e.nonNilErr(s.Val, 3) {
						return false
					}
					n++
				}
			}
		}
	}
	if n > 0 {
		return true
	}
	// the initialiser is part of the package's synthetic init function
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					if !e.nonNilErr(s.Val, 3) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func errPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isErr(p.Elem())
}

func (e *ErrFlow) summaries() {
	fns := e.p.Functions()
	// never: greatest fixpoint
	for _, fn := range fns {
		if len(retErr(fn)) > 0 {
			e.never[fn] = true
			e.always[fn] = len(retErr(fn)) == 1
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if e.never[fn] && !e.isNever(fn) {
				delete(e.never, fn)
				changed = true
			}
			if e.always[fn] && !e.isAlways(fn) {
				delete(e.always, fn)
				changed = true
			}
		}
	}
	for _, fn := range fns {
		ok := true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, is := in.(*ssa.Store); is && errPtr(s.Addr.Type()) {
					switch s.Addr.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
						if !e.nonNilErr(s.Val, 0) {
							ok = false
						}
					}
				}
			}
		}
		e.mono[fn] = ok
	}
}

func (e *ErrFlow) isAlways(fn *ssa.Function) bool {
	rs := returns(fn)
	for _, r := range rs {
		for _, i := range retErr(fn) {
			if !e.nonNilErr(r.Results[i], 0) {
				return false
			}
		}
	}
	return true
}

func (e *ErrFlow) isNever(fn *ssa.Function) bool {
	var nilv func(v ssa.Value, d int) bool
	nilv = func(v ssa.Value, d int) bool {
		if constNil(v) {
			return true
		}
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				if ed != x && !nilv(ed, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			f := x.Call.StaticCallee()
			return f != nil && (e.never[f] || extNever(f)) && f.Signature.Results().Len() == 1
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				f := c.Call.StaticCallee()
				return f != nil && (e.never[f] || extNever(f))
			}
		}
		return false
	}
	for _, r := range returns(fn) {
		for _, i := range retErr(fn) {
			if !nilv(r.Results[i], 0) {
				return false
			}
		}
	}
	return true
}

// ---- one source ----

type pstate struct {
	b      *ssa.BasicBlock
	i      int
	alias  map[ssa.Value]bool // hold the error (values and cells)
	nonnil map[ssa.Value]bool // known to hold a non-nil error
	nils   map[ssa.Value]bool // known to be nil
	known  bool               // the error itself is known to be non-nil
	facts  map[ssa.Value]bool // branch conditions already decided on this path
	trace  []string
}

func key(s *pstate) string {
	var ks []string
	for v := range s.alias {
		ks = append(ks, "a"+v.Name())
	}
	for v := range s.nonnil {
		ks = append(ks, "n"+v.Name())
	}
	for v := range s.nils {
		ks = append(ks, "z"+v.Name())
	}
	for v, b := range s.facts {
		ks = append(ks, fmt.Sprint("f", v.Name(), b))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d.%d.%v.%s", s.b.Index, s.i, s.known, strings.Join(ks, ","))
}

func cp(m map[ssa.Value]bool) map[ssa.Value]bool {
	n := make(map[ssa.Value]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *pstate) clone() *pstate {
	return &pstate{s.b, s.i, cp(s.alias), cp(s.nonnil), cp(s.nils), s.known, cp(s.facts), s.trace[:len(s.trace):len(s.trace)]}
}

func (s *pstate) set(v ssa.Value, alias, nonnil, isnil bool) {
	delete(s.alias, v)
	delete(s.nonnil, v)
	delete(s.nils, v)
	if alias {
		s.alias[v] = true
	}
	if nonnil {
		s.nonnil[v] = true
	}
	if isnil {
		s.nils[v] = true
	}
}

func (e *ErrFlow) look(s *pstate, v ssa.Value) (alias, nonnil, isnil bool) {
	alias = s.alias[v]
	nonnil = s.nonnil[v] || (alias && s.known) || e.nonNilErr(v, 0)
	isnil = s.nils[v] || constNil(v)
	return
}

// writers of an error cell: the calls which may store into it
func mayWriteCell(in ssa.CallInstruction, cell ssa.Value) (bool, *ssa.Function) {
	c := in.Common()
	for i, a := range c.Args {
		if a == cell {
			if f := c.StaticCallee(); f != nil && f.Blocks != nil && i < len(f.Params) {
				return storesTo(f, f.Params[i]), f
			}
			return true, nil
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		f := mc.Fn.(*ssa.Function)
		for i, bnd := range mc.Bindings {
			if bnd == cell {
				return storesTo(f, f.FreeVars[i]), f
			}
		}
		return false, nil
	}
	if c.StaticCallee() == nil && !c.IsInvoke() {
		// an unknown function value: may be any closure which captured the cell
		for _, r := range *cell.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok {
				return true, mc.Fn.(*ssa.Function)
			}
		}
	}
	return false, nil
}

func storesTo(f *ssa.Function, p ssa.Value) bool {
	if p.Referrers() == nil {
		return false
	}
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == p {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case ssa.CallInstruction:
			if w, _ := mayWriteCell(x, p); w {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// follow explores every path after a source; report tells about a path on which the error is lost.
func (e *ErrFlow) follow(fn *ssa.Function, start *pstate, what string, at token.Pos) {
	outCells := map[ssa.Value]bool{}
	for _, p := range fn.Params {
		if errPtr(p.Type()) {
			outCells[p] = true
		}
	}
	for _, p := range fn.FreeVars {
		if errPtr(p.Type()) {
			outCells[p] = true
		}
	}
	seen := map[string]bool{}
	work := []*pstate{start}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if k := key(s); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		e.npath++
		if len(seen) > 60000 {
			e.r.Fail(report.Violation{Rule: "errflow-budget", Where: e.p.Pos(at), Func: fn.String(), What: "too many paths follow " + what})
			return
		}
		done := false
		for ; s.i < len(s.b.Instrs) && !done; s.i++ {
			switch x := s.b.Instrs[s.i].(type) {
			case *ssa.Store:
				if errPtr(x.Addr.Type()) {
					a, n, z := e.look(s, x.Val)
					s.set(x.Addr, a, n, z)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && isErr(x.Type()) {
					s.set(x, s.alias[x.X], s.nonnil[x.X], s.nils[x.X])
				}
			case *ssa.Panic:
				done = true
			case *ssa.Return:
				done = true
				ok := false
				for _, i := range retErr(fn) {
					if a, n, _ := e.look(s, x.Results[i]); a || n {
						ok = true
					}
				}
				for c := range outCells {
					if s.alias[c] || s.nonnil[c] {
						ok = true
					}
				}
				if !ok {
					e.r.Fail(report.Violation{Rule: "error-dropped", Where: e.p.Pos(at), Func: fn.String(),
						What: fmt.Sprintf("%s may be non-nil, but a path to the return at %s returns no error", what, e.p.Pos(x.Pos())), Path: s.trace})
					return
				}
			case *ssa.If:
				done = true
				for k, succ := range s.b.Succs {
					n := s.clone()
					if !e.branch(n, x.Cond, k == 0) {
						continue
					}
					e.enter(n, s.b, succ)
					work = append(work, n)
				}
			case *ssa.Jump:
				done = true
				n := s.clone()
				e.enter(n, s.b, s.b.Succs[0])
				work = append(work, n)
			default:
				if c, ok := x.(ssa.CallInstruction); ok {
					for cell := range cp(s.alias) {
						if errPtr(cell.Type()) {
							if w, f := mayWriteCell(c, cell); w && (f == nil || !e.mono[f]) {
								s.set(cell, false, false, false)
							}
						}
					}
					for cell := range cp(s.nonnil) {
						if errPtr(cell.Type()) {
							if w, f := mayWriteCell(c, cell); w && (f == nil || !e.mono[f]) {
								s.set(cell, false, false, false)
							}
						}
					}
					for cell := range cp(s.nils) {
						if errPtr(cell.Type()) {
							if w, _ := mayWriteCell(c, cell); w {
								delete(s.nils, cell)
							}
						}
					}
				}
				// a value computed anew forgets what was known of it (loops)
				if v, ok := x.(ssa.Value); ok {
					if v != start.src() || s != start {
						s.set(v, false, false, false)
					}
					delete(s.facts, v)
				}
			}
		}
	}
}

func (s *pstate) src() ssa.Value { return nil }

// branch applies a condition; false if the branch is impossible or carries no obligation.
func (e *ErrFlow) branch(s *pstate, cond ssa.Value, taken bool) bool {
	switch x := cond.(type) {
	case *ssa.Const:
		return (x.Value.String() == "true") == taken
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.branch(s, x.X, !taken)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			v := x.X
			if constNil(v) {
				v = x.Y
			} else if !constNil(x.Y) {
				break
			}
			if !isErr(v.Type()) {
				break
			}
			isNil := (x.Op == token.EQL) == taken
			a, n, z := e.look(s, v)
			switch {
			case isNil && n, !isNil && z:
				return false
			case isNil && a:
				return false // the error is nil here: nothing to keep
			case !isNil && a:
				s.known = true
			case isNil:
				s.nils[v] = true
			default:
				s.nonnil[v] = true
			}
			// a cell and the values loaded from it
			return true
		}
	}
	if was, ok := s.facts[cond]; ok {
		return was == taken
	}
	switch cond.(type) {
	case *ssa.Phi, *ssa.Parameter:
		s.facts[cond] = taken
	}
	return true
}

// enter moves to a block, evaluating its phis in parallel.
func (e *ErrFlow) enter(s *pstate, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	type upd struct {
		v       ssa.Value
		a, n, z bool
	}
	var us []upd
	type bupd struct {
		v    ssa.Value
		set  bool
		know bool
	}
	var bs []bupd
	i := 0
	for ; i < len(to.Instrs); i++ {
		ph, ok := to.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		if isErr(ph.Type()) {
			a, n, z := e.look(s, ph.Edges[k])
			us = append(us, upd{ph, a, n, z})
		} else if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if c, ok := ph.Edges[k].(*ssa.Const); ok {
				bs = append(bs, bupd{ph, c.Value.String() == "true", true})
			} else if f, ok := s.facts[ph.Edges[k]]; ok {
				bs = append(bs, bupd{ph, f, true})
			} else {
				bs = append(bs, bupd{ph, false, false})
			}
		}
	}
	for _, u := range us {
		s.set(u.v, u.a, u.n, u.z)
	}
	for _, b := range bs {
		if b.know {
			s.facts[b.v] = b.set
		} else {
			delete(s.facts, b.v)
		}
	}
	s.b, s.i = to, i
	if len(to.Instrs) > 0 && len(s.trace) < 40 {
		for _, in := range to.Instrs {
			if in.Pos().IsValid() {
				s.trace = append(s.trace, e.p.Pos(in.Pos()))
				break
			}
		}
	}
}

func callName(c ssa.CallInstruction) string {
	com := c.Common()
	if f := com.StaticCallee(); f != nil {
		return "the error of " + f.Name()
	}
	if com.IsInvoke() {
		return "the error of " + com.Method.Name()
	}
	return "the error of a function value"
}

// mustForm: an exported function which is documented to drop its error.
func mustForm(fn *ssa.Function) bool {
	return fn.Parent() == nil && strings.HasPrefix(fn.Name(), "Must") && len(retErr(fn)) == 0
}

// marshalsBasic: json.Marshal of a string, boolean or integer never fails.
func marshalsBasic(com *ssa.CallCommon) bool {
	if com.StaticCallee().String() != "encoding/json.Marshal" || len(com.Args) != 1 {
		return false
	}
	m, ok := com.Args[0].(*ssa.MakeInterface)
	if !ok {
		return false
	}
	b, ok := m.X.Type().(*types.Basic)
	return ok && b.Info()&types.IsConstType != 0 // a float which is not finite: C07
}

// neverInvoke: an interface of the repository whose implementations never fail.
func (e *ErrFlow) neverInvoke(com *ssa.CallCommon) bool {
	n, ok := com.Value.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.p.Mod) {
		return false
	}
	it := n.Underlying().(*types.Interface)
	impl := 0
	for _, fn := range e.p.Functions() {
		if rv := fn.Signature.Recv(); rv != nil && fn.Name() == com.Method.Name() && types.Implements(rv.Type(), it) {
			impl++
			if !e.never[fn] {
				return false
			}
		}
	}
	return impl > 0
}

// Check runs the analysis over a scope.
func (e *ErrFlow) check(fn *ssa.Function) {
	fresh := func(b *ssa.BasicBlock, i int) *pstate {
		return &pstate{b: b, i: i, alias: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}, nils: map[ssa.Value]bool{}, facts: map[ssa.Value]bool{}}
	}
	for _, b := range fn.Blocks {
		if b != fn.Blocks[0] && len(b.Preds) == 0 {
			continue
		}
		for i, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if _, isB := com.Value.(*ssa.Builtin); isB {
				continue
			}
			f := com.StaticCallee()
			if f != nil && (e.never[f] || extNever(f) || marshalsBasic(com)) || com.IsInvoke() && e.neverInvoke(com) {
				continue
			}
			if f != nil && e.p.InRepo(f) && mustForm(f) && !mustForm(fn) {
				e.nsrc++
				e.r.Oblige("error-flow:" + fn.Name())
				e.r.Fail(report.Violation{Rule: "error-dropped", Where: e.p.Pos(in.Pos()), Func: fn.String(),
					What: fmt.Sprintf("%s drops its error, and is called where the error must be kept", f.Name())})
			}
			sig := com.Signature()
			hasErr := false
			for k := 0; k < sig.Results().Len(); k++ {
				if isErr(sig.Results().At(k).Type()) {
					hasErr = true
				}
			}
			if hasErr && !mustForm(fn) {
				e.nsrc++
				e.r.Oblige("error-flow:" + fn.Name())
				s := fresh(b, i+1)
				s.known = f != nil && (extAlways(f) || e.always[f])
				if sig.Results().Len() == 1 {
					if v := c.Value(); v != nil {
						s.alias[v] = true
					}
				} else if v := c.Value(); v != nil && v.Referrers() != nil {
					for _, r := range *v.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && isErr(x.Type()) {
							s.alias[x] = true
						}
					}
				}
				e.follow2(fn, s, callName(c), in.Pos())
			}
			// errors written by the call into cells of this function
			for _, cell := range e.cells(fn) {
				if w, _ := mayWriteCell(c, cell); w {
					e.nsrc++
					e.r.Oblige("error-cell:" + fn.Name())
					s := fresh(b, i+1)
					s.alias[cell] = true
					e.follow2(fn, s, "the error left by "+strings.TrimPrefix(callName(c), "the error of "), in.Pos())
				}
			}
		}
	}
}

// follow2 skips the extracts of the source itself, which follow the call directly.
func (e *ErrFlow) follow2(fn *ssa.Function, s *pstate, what string, at token.Pos) {
	src := cp(s.alias)
	for s.i < len(s.b.Instrs) {
		x, ok := s.b.Instrs[s.i].(*ssa.Extract)
		if !ok {
			break
		}
		_ = x
		s.i++
	}
	for v := range src {
		s.alias[v] = true
	}
	e.follow(fn, s, what, at)
}

func (e *ErrFlow) cells(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, p := range fn.Params {
		if errPtr(p.Type()) {
			out = append(out, p)
		}
	}
	for _, p := range fn.FreeVars {
		if errPtr(p.Type()) {
			out = append(out, p)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && errPtr(a.Type()) {
				out = append(out, a)
			}
		}
	}
	return out
}

// ErrorFlow checks every error source of the functions reachable from the roots.
func ErrorFlow(p *prog.Program, r *report.Report, roots func(fn *ssa.Function) bool, stop bool) {
	r.Rule = "Every call in scope with an error result: on each path of the SSA form on which that error may be non-nil the function must end with a non-nil error, leave one in its caller's error cell, or panic."
	e := &ErrFlow{p: p, r: r, never: map[*ssa.Function]bool{}, always: map[*ssa.Function]bool{}, mono: map[*ssa.Function]bool{}}
	e.summaries()
	e.scope = scopeFrom(p, roots, stop)
	var fns []*ssa.Function
	for fn := range e.scope {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		r.Functions[fn.String()] = true
		e.check(fn)
	}
	r.Analysed["error_sources"] = e.nsrc
	r.Analysed["path_states"] = e.npath
	r.Analysed["functions_in_scope"] = len(fns)
}

// ParseRoots are the exported parsing functions.
func ParseRoots(fn *ssa.Function) bool {
	return fn.Parent() == nil && token.IsExported(fn.Name()) && strings.Contains(fn.Name(), "Unmarshal")
}

// ImportRoots are the exported importing functions.
func ImportRoots(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Name() == "Import"
}

// MarshalRoots are the exported marshaling functions.
func MarshalRoots(fn *ssa.Function) bool {
	return fn.Parent() == nil && token.IsExported(fn.Name()) && strings.Contains(fn.Name(), "Marshal") && !ParseRoots(fn)
}
