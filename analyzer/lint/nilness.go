package lint

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/prog"
)

// Nilness decides which functions never return a nil value.
//
// Every result of type *V, or of an interface of the repository, starts as "never nil, whatever the other results are";
// claims which some return contradicts are dropped until nothing changes (a greatest fixpoint, so that recursion is
// assumed to do what it is claimed to do). A result may keep only the claim "not nil if the error is nil" or "not nil
// if that flag is true (false)".
type Nilness struct {
	p     *prog.Program
	vptr  types.Type
	fns   []*ssa.Function
	claim map[*ssa.Function]map[int]map[guard]bool
	glob  map[*ssa.Global]int
	tree  map[*types.Struct]bool
	nret  int
	why   map[*ssa.Function]string
}

// guard is the condition of a claim: -1 none, or another result which is nil or true ('t'), or not ('f').
type guard struct {
	res  int
	want byte
}

var always = guard{-1, 0}

func (n *Nilness) wanted(t types.Type) bool {
	if types.Identical(t, n.vptr) {
		return true
	}
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg() != n.p.Main.Pkg {
		return false
	}
	_, ok = nt.Underlying().(*types.Interface)
	return ok
}

// NewNilness runs the analysis.
func NewNilness(p *prog.Program) *Nilness {
	n := &Nilness{p: p, vptr: types.NewPointer(p.Main.Pkg.Scope().Lookup("V").Type()), claim: map[*ssa.Function]map[int]map[guard]bool{},
		glob: map[*ssa.Global]int{}, tree: map[*types.Struct]bool{}, why: map[*ssa.Function]string{}}
	n.treeTypes(n.vptr.(*types.Pointer).Elem())
	for _, fn := range p.Functions() {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if !n.wanted(rs.At(i).Type()) {
				continue
			}
			m := n.claim[fn]
			if m == nil {
				m = map[int]map[guard]bool{}
				n.claim[fn] = m
				n.fns = append(n.fns, fn)
			}
			m[i] = map[guard]bool{always: true}
			for j := 0; j < rs.Len(); j++ {
				if t := rs.At(j).Type(); isErr(t) {
					m[i][guard{j, 't'}] = true
				} else if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					m[i][guard{j, 't'}] = true
					m[i][guard{j, 'f'}] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		n.nret = 0
		for _, fn := range n.fns {
			for _, b := range fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for i, m := range n.claim[fn] {
					n.nret++
					for g := range m {
						if !n.returns(fn, ret, i, g) {
							if g == always {
								n.why[fn] = p.Pos(ret.Pos())
							}
							delete(m, g)
							changed = true
						}
					}
				}
			}
		}
	}
	return n
}

// treeTypes lists the structs which a value is made of; its members are initialised values.
func (n *Nilness) treeTypes(t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.tree[u] {
			return
		}
		n.tree[u] = true
		for i := 0; i < u.NumFields(); i++ {
			n.treeTypes(u.Field(i).Type())
		}
	case *types.Slice:
		n.treeTypes(u.Elem())
	case *types.Map:
		n.treeTypes(u.Elem())
	}
}

func (n *Nilness) returns(fn *ssa.Function, ret *ssa.Return, i int, g guard) bool {
	b := ret.Block()
	f := &nfacts{n: n, at: ret}
	v := ret.Results[i]
	if f.nonNil(v, b, nil) {
		return true
	}
	if g == always {
		return false
	}
	w := ret.Results[g.res]
	if f.violates(w, g, b) {
		return true
	}
	// both results of one call
	e1, ok1 := v.(*ssa.Extract)
	e2, ok2 := w.(*ssa.Extract)
	if ok1 && ok2 && e1.Tuple == e2.Tuple {
		if c, ok := e1.Tuple.(*ssa.Call); ok {
			return n.holds(c.Common(), e1.Index, guard{e2.Index, g.want})
		}
	}
	// phis of one block: edge by edge
	p1, ok1 := v.(*ssa.Phi)
	p2, ok2 := w.(*ssa.Phi)
	if ok1 && p1.Block() == b {
		for k, e := range p1.Edges {
			x := w
			if ok2 && p2.Block() == b {
				x = p2.Edges[k]
			}
			pr := b.Preds[k]
			if f.edge(e, pr, b, map[ssa.Value]bool{v: true}) || f.violatesEdge(x, g, pr, b) {
				continue
			}
			d1, ok1 := e.(*ssa.Extract)
			d2, ok2 := x.(*ssa.Extract)
			if ok1 && ok2 && d1.Tuple == d2.Tuple {
				if c, ok := d1.Tuple.(*ssa.Call); ok && n.holds(c.Common(), d1.Index, guard{d2.Index, g.want}) {
					continue
				}
			}
			return false
		}
		return true
	}
	return false
}

// holds tells whether every function a call may enter keeps a claim.
func (n *Nilness) holds(c *ssa.CallCommon, i int, g guard) bool {
	fn := c.StaticCallee()
	if fn == nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fn, _ = mc.Fn.(*ssa.Function)
		}
	}
	if fn == nil {
		return false
	}
	if m, ok := n.claim[fn]; ok {
		return m[i][g] || m[i][always]
	}
	return false
}

type nfacts struct {
	n  *Nilness
	at ssa.Instruction
}

// violates tells whether a guard is false for value w at the end of block b.
func (f *nfacts) violates(w ssa.Value, g guard, b *ssa.BasicBlock) bool {
	if isErr(w.Type()) {
		return f.errNonNil(w, b, 0)
	}
	if c, ok := w.(*ssa.Const); ok && c.Value != nil {
		return (c.Value.ExactString() == "true") != (g.want == 't')
	}
	t, known := f.known(w, b)
	return known && t != (g.want == 't')
}

func (f *nfacts) violatesEdge(w ssa.Value, g guard, from, to *ssa.BasicBlock) bool {
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		c, taken := i.Cond, from.Succs[0] == to
		if isErr(w.Type()) {
			if isNil, known := nilCond(c, taken, w); known {
				return isNil != (g.want == 't')
			}
		} else {
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, taken = u.X, !taken
			}
			if c == w {
				return taken != (g.want == 't')
			}
		}
	}
	return f.violates(w, g, from)
}

// excluded tells whether what is known at block b rules out that phi was entered over edge k, or lets the edge's value
// be not nil.
func (f *nfacts) excluded(phi *ssa.Phi, k int, b *ssa.BasicBlock) bool {
	for _, in := range phi.Block().Instrs {
		q, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if q == phi {
			continue
		}
		g := guard{0, 't'}
		if isErr(q.Type()) {
			isNil, known := f.nilAt(q, b)
			if !known {
				continue
			}
			if !isNil {
				g.want = 'f'
			}
		} else {
			v, known := f.known(q, b)
			if !known {
				continue
			}
			if !v {
				g.want = 'f'
			}
		}
		if g.want == 't' || !isErr(q.Type()) {
			if f.violatesEdge(q.Edges[k], g, phi.Block().Preds[k], phi.Block()) {
				return true
			}
		} else if constNil(q.Edges[k]) {
			return true
		}
		d1, ok1 := phi.Edges[k].(*ssa.Extract)
		d2, ok2 := q.Edges[k].(*ssa.Extract)
		if ok1 && ok2 && d1.Tuple == d2.Tuple {
			if c, ok := d1.Tuple.(*ssa.Call); ok && f.n.holds(c.Common(), d1.Index, guard{d2.Index, g.want}) {
				return true
			}
		}
	}
	return false
}

func (f *nfacts) errNonNil(w ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := w.(type) {
	case *ssa.Call:
		if c := x.Common().StaticCallee(); c != nil && c.Pkg != nil {
			s := c.Pkg.Pkg.Path() + "." + c.Name()
			if s == "fmt.Errorf" || s == "errors.New" {
				return true
			}
			if len(c.Blocks) > 0 && f.n.p.InRepo(c) && c.Signature.Results().Len() == 1 {
				all := true
				for _, r := range returns(c) {
					all = all && f.errNonNil(r.Results[0], r.Block(), depth+1)
				}
				if all {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && f.n.global(g) {
			return true
		}
	case *ssa.MakeInterface:
		return true
	}
	t, known := f.nilAt(w, b)
	return known && !t
}

// global tells whether a package variable is set once, to something not nil, during initialisation.
func (n *Nilness) global(g *ssa.Global) bool {
	if r, ok := n.glob[g]; ok {
		return r == 1
	}
	n.glob[g] = 0
	cnt := 0
	for _, fn := range n.p.Functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Val == ssa.Value(g) || !isInit(fn) {
							return false
						}
						f := &nfacts{n: n, at: x}
						switch x.Val.(type) {
						case *ssa.Alloc, *ssa.MakeInterface:
						case *ssa.Call:
							if !f.errNonNil(x.Val, b, 0) && !f.nonNil(x.Val, b, nil) {
								return false
							}
						default:
							return false
						}
						cnt++
					default:
						return false
					}
				}
			}
		}
	}
	if cnt == 1 {
		n.glob[g] = 1
	}
	return cnt == 1
}

// conds lists the branch conditions which hold at block b.
func conds(b *ssa.BasicBlock, visit func(c ssa.Value, taken bool) bool) {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return
		}
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			for k, s := range p.Succs {
				if s == d && len(d.Preds) == 1 {
					if !visit(i.Cond, k == 0) {
						return
					}
				}
			}
		}
	}
}

// nilAt: what the branches say about x being nil.
func (f *nfacts) nilAt(x ssa.Value, b *ssa.BasicBlock) (isNil, known bool) {
	conds(b, func(c ssa.Value, taken bool) bool {
		isNil, known = nilCond(c, taken, x)
		return !known
	})
	return
}

func nilCond(c ssa.Value, taken bool, x ssa.Value) (isNil, known bool) {
	switch y := c.(type) {
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ {
			return
		}
		if y.X == x && constNil(y.Y) || y.Y == x && constNil(y.X) {
			return (y.Op == token.EQL) == taken, true
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return nilCond(y.X, !taken, x)
		}
	}
	return
}

func (f *nfacts) known(x ssa.Value, b *ssa.BasicBlock) (val, known bool) {
	conds(b, func(c ssa.Value, taken bool) bool {
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, taken = u.X, !taken
		}
		if c == x {
			val, known = taken, true
		}
		return !known
	})
	return
}

// used tells whether x has been dereferenced before the end of block b is reached.
func used(x ssa.Value, b *ssa.BasicBlock, at ssa.Instruction) bool {
	refs := x.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		deref := false
		switch y := r.(type) {
		case *ssa.FieldAddr:
			deref = y.X == x
		case *ssa.UnOp:
			deref = y.Op == token.MUL && y.X == x
		case *ssa.Store:
			deref = y.Addr == x
		}
		if deref && r.Block().Dominates(b) {
			return true
		}
	}
	return false
}

// edge: x is not nil when block to is entered from block from.
func (f *nfacts) edge(x ssa.Value, from, to *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		if isNil, known := nilCond(i.Cond, from.Succs[0] == to, x); known {
			return !isNil
		}
	}
	return f.nonNil(x, from, seen)
}

func (f *nfacts) nonNil(x ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[x] {
		return true
	}
	switch y := x.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap:
		return true
	case *ssa.MakeInterface:
		if _, ok := y.X.Type().Underlying().(*types.Pointer); ok {
			return f.nonNil(y.X, b, seen)
		}
		return true
	case *ssa.ChangeInterface:
		return f.nonNil(y.X, b, seen)
	case *ssa.ChangeType:
		return f.nonNil(y.X, b, seen)
	case *ssa.Const:
		return false
	case *ssa.Call:
		if f.n.holds(y.Common(), 0, always) {
			return true
		}
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.Call:
			if f.n.holds(t.Common(), y.Index, always) {
				return true
			}
			for _, r := range *t.Referrers() {
				e, ok := r.(*ssa.Extract)
				if !ok || e == y {
					continue
				}
				for _, w := range []byte{'t', 'f'} {
					if !f.n.holds(t.Common(), y.Index, guard{e.Index, w}) {
						continue
					}
					if isErr(e.Type()) {
						if isNil, known := f.nilAt(e, b); known && isNil && w == 't' {
							return true
						}
					} else if v, known := f.known(e, b); known && v == (w == 't') {
						return true
					}
				}
			}
		case *ssa.Next:
			if f.treeValue(t.Iter) && y.Index == 2 {
				return true
			}
		}
	case *ssa.Phi:
		s := map[ssa.Value]bool{x: true}
		for k := range seen {
			s[k] = true
		}
		all := true
		for k, e := range y.Edges {
			if !f.edge(e, y.Block().Preds[k], y.Block(), s) && !f.excluded(y, k, b) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	case *ssa.Field:
		if f.member(y.X, b) {
			return true
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if g, ok := y.X.(*ssa.Global); ok && f.n.global(g) {
				return true
			}
			if f.treeAddr(y.X) {
				return true
			}
			if fa, ok := y.X.(*ssa.FieldAddr); ok { // a local copy of an entry
				if al, ok := fa.X.(*ssa.Alloc); ok {
					if vs, ok := reaching(al, y); ok {
						all := len(vs) > 0
						for _, v := range vs {
							all = all && f.member(v, b)
						}
						if all {
							return true
						}
					}
				}
			}
		}
	}
	if isNil, known := f.nilAt(x, b); known && !isNil {
		return true
	}
	return used(x, b, f.at)
}

// treeAddr: the address of an element of a value's array.
func (f *nfacts) treeAddr(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	return ok && f.treeValue(ia.X)
}

// treeValue: something read from a field of a value.
func (f *nfacts) treeValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if x.Op != token.MUL || !ok {
			return false
		}
		st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return ok && f.n.tree[st]
	case *ssa.Slice:
		return f.treeValue(x.X)
	case *ssa.Range:
		return f.treeValue(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.treeValue(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// member: an entry of a value's object, found there.
func (f *nfacts) member(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if !f.treeValue(t.X) {
				return false
			}
			for _, r := range *t.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					if v, known := f.known(e, b); known && v {
						return true
					}
				}
			}
		case *ssa.Next:
			return f.treeValue(t.Iter)
		}
	case *ssa.UnOp:
		return x.Op == token.MUL && f.treeAddr(x.X)
	}
	return false
}

// Failing lists the exported functions for which it could not be shown that result i is never nil.
func (n *Nilness) Failing(each func(fn *ssa.Function, res int, ok bool)) {
	sort.Slice(n.fns, func(i, j int) bool { return n.fns[i].String() < n.fns[j].String() })
	for _, fn := range n.fns {
		if fn.Parent() != nil || fn.Synthetic != "" || !token.IsExported(fn.Name()) || fn.Object() == nil {
			continue
		}
		if strings.Contains(fn.Pkg.Pkg.Path(), "/internal/") {
			continue
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if m, ok := n.claim[fn][i]; ok {
				each(fn, i, m[always])
			}
		}
	}
}

// Why names the return which contradicts the claim.
func (n *Nilness) Why(fn *ssa.Function, res int) string { return "see the return at " + n.why[fn] }

// reaching lists the values which a local variable, only stored to as a whole, may hold at an instruction.
func reaching(al *ssa.Alloc, at ssa.Instruction) (vs []ssa.Value, ok bool) {
	stores := map[*ssa.BasicBlock][]*ssa.Store{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return nil, false
			}
			stores[x.Block()] = append(stores[x.Block()], x)
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				if u, ok := rr.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return nil, false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, n int) bool
	back = func(b *ssa.BasicBlock, n int) bool {
		for n--; n >= 0; n-- {
			for _, s := range stores[b] {
				if b.Instrs[n] == ssa.Instruction(s) {
					vs = append(vs, s.Val)
					return true
				}
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				if !back(p, len(p.Instrs)) {
					return false
				}
			}
		}
		return true
	}
	for n, i := range at.Block().Instrs {
		if i == at {
			return vs, back(at.Block(), n)
		}
	}
	return nil, false
}

// Known tells whether fn takes texts and numbers only and never returns a nil value.
func (n *Nilness) Known(fn *ssa.Function) bool {
	m, ok := n.claim[fn]
	if !ok || fn.Signature.Recv() != nil || !token.IsExported(fn.Name()) || !m[0][always] {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		switch t := fn.Signature.Params().At(i).Type().Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// KnownMethod tells whether a method that other packages cannot define never returns a nil value.
func (n *Nilness) KnownMethod(name string) bool {
	if token.IsExported(name) {
		return false
	}
	found := false
	for _, fn := range n.fns {
		if fn.Signature.Recv() != nil && fn.Name() == name && fn.Synthetic == "" {
			if !n.claim[fn][0][always] {
				return false
			}
			found = true
		}
	}
	return found
}
