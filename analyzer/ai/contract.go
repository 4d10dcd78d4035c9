package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/report"
)

// Contracts: recursive functions and large ones with loops are analysed once, for all arguments which satisfy a
// precondition; calls are replaced by the postcondition. Both are conjunctions of relations between integers, taken
// from a finite set of candidates: a candidate is dropped as soon as a call (for preconditions) or a return (for
// postconditions) does not establish it, until none is dropped any more.

// cterm is an integer of a contract.
type cterm struct {
	kind byte // '0' zero, 'p' parameter, 'l' length of a slice parameter, 'f' field of the struct a parameter points to, 'm' length of such a field, 'r' result
	i, f int
	post bool // value at the return
}

// crel is a relation: a (+ plus) op b.
type crel struct {
	op      byte // '<', 'l' (at most), '=', 'n' (a is a pointer parameter or result which is not nil)
	a, b    cterm
	plus    cterm
	hasPlus bool
}

type contract struct {
	key   string
	fn    *ssa.Function
	iface map[int]types.Type // dynamic types of interface parameters
	preC  []crel
	postC []crel
	pre   []bool            // which still hold
	post  map[string][]bool // by kind of outcome; kinds which do not occur are missing
}

// csession is what one analysis reads and finds out about contracts.
type csession struct {
	known  map[string]*contract // read only
	isFn   map[*ssa.Function]bool
	scc    map[*ssa.Function]int
	root   *contract
	rootD  []Val // its arguments
	newC   map[string]*contract
	noPre  map[string][]bool // key: broken preconditions
	noPost map[string][]bool // kind: broken postconditions of the root
	edges  map[string]*cedge // recursion
	stores map[string][]int
	words  map[string][5]bool // relations of the halves of shared words which are wrong
	noWord map[string][5]bool
	used   map[string]bool // contracts which the analysis depends on
	stored map[string]bool // words which the initialisation stores to
}

// cedge is a recursive call: how parameter j of the callee is related to parameter i of the caller.
type cedge struct {
	from, to *ssa.Function
	moves    map[[2]int]byte
	pos      string
}

// ---- which functions ----

// contractFns are the functions of the repository with contracts.
func contractFns(in *Interp) (map[*ssa.Function]bool, map[*ssa.Function]int) {
	p := in.P
	var fns []*ssa.Function
	var impl = map[string][]*ssa.Function{}
	for _, f := range p.Functions() {
		if len(f.Blocks) > 0 && f.Pkg == p.Main {
			fns = append(fns, f)
			if f.Signature.Recv() != nil {
				impl[f.Name()] = append(impl[f.Name()], f)
			}
		}
	}
	callees := func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if h := ci.Common().StaticCallee(); h != nil {
						out = append(out, h)
					}
				}
			}
			for _, a := range g.AnonFuncs {
				walk(a)
			}
		}
		walk(f)
		return out
	}
	// Tarjan
	idx, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	scc := map[*ssa.Function]int{}
	var stack []*ssa.Function
	n, ns := 0, 0
	rec := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range callees(f) {
			if g == f {
				rec[f] = true
			}
			if g.Pkg != p.Main || len(g.Blocks) == 0 || g.Parent() != nil {
				continue
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			ns++
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				scc[g] = ns
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 {
				for _, g := range comp {
					rec[g] = true
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	for _, f := range fns {
		if idx[f] == 0 && f.Parent() == nil {
			visit(f)
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f.Parent() != nil || len(f.FreeVars) > 0 || f.Signature.Variadic() {
			continue
		}
		if !rec[f] && !(hasLoop(f) && ninstr(f) > 40) {
			continue
		}
		ok := true
		for _, q := range f.Params {
			ok = ok && in.contractible(q.Type())
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if _, isF := under(f.Signature.Results().At(i).Type()).(*types.Signature); isF {
				ok = false
			}
		}
		if ok {
			out[f] = true
		}
	}
	return out, scc
}

func ninstr(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// contractible tells whether parameters of a type may be arbitrary.
func (in *Interp) contractible(T types.Type) bool {
	switch u := under(T).(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		b, ok := under(u.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Interface:
		return u.NumMethods() > 0 && !isErrT(T)
	case *types.Pointer:
		if in.R.isV(u.Elem()) {
			return false
		}
		return flatStruct(u.Elem())
	}
	return false
}

// flatStruct tells whether a struct consists of basic values and slices.
func flatStruct(T types.Type) bool {
	s, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch under(s.Field(i).Type()).(type) {
		case *types.Basic, *types.Slice:
		default:
			return false
		}
	}
	return true
}

// ---- candidates ----

func isIntT(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (in *Interp) newContract(key string, fn *ssa.Function, iface map[int]types.Type) *contract {
	k := &contract{key: key, fn: fn, iface: iface, post: map[string][]bool{}}
	var pres, posts []cterm
	for i, q := range fn.Params {
		T := q.Type()
		if t, ok := iface[i]; ok {
			T = t
		}
		switch u := under(T).(type) {
		case *types.Basic:
			if isIntT(T) {
				pres = append(pres, cterm{kind: 'p', i: i})
			}
		case *types.Slice:
			pres = append(pres, cterm{kind: 'l', i: i})
		case *types.Pointer:
			k.preC = append(k.preC, crel{op: 'n', a: cterm{kind: 'p', i: i}})
			if s, ok := under(u.Elem()).(*types.Struct); ok {
				for j := 0; j < s.NumFields(); j++ {
					t := cterm{i: i, f: j}
					switch {
					case isIntT(s.Field(j).Type()):
						t.kind = 'f'
					default:
						if _, ok := under(s.Field(j).Type()).(*types.Slice); !ok {
							continue
						}
						t.kind = 'm'
					}
					pres = append(pres, t)
					t.post = true
					posts = append(posts, t)
				}
			}
		}
	}
	var ints []cterm
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := cterm{kind: 'r', i: i}
		switch under(rs.At(i).Type()).(type) {
		case *types.Pointer:
			k.postC = append(k.postC, crel{op: 'n', a: t})
			// members of an enumeration
			if s, ok := under(rs.At(i).Type().Underlying().(*types.Pointer).Elem()).(*types.Struct); ok {
				for j := 0; j < s.NumFields(); j++ {
					if n, ok := s.Field(j).Type().(*types.Named); ok && isBasic(n, types.IsInteger) {
						for x := 0; x < 12; x++ {
							k.postC = append(k.postC, crel{op: '=', a: cterm{kind: 's', i: i, f: j}, b: cterm{kind: 'c', i: x}})
						}
					}
				}
			}
		default:
			if isIntT(rs.At(i).Type()) {
				ints = append(ints, t)
				posts = append(posts, t)
			}
		}
	}
	zero := cterm{kind: '0'}
	all := append([]cterm{zero}, pres...)
	for _, a := range all {
		for _, b := range all {
			if a == b || b == zero {
				continue
			}
			k.preC = append(k.preC, crel{op: '<', a: a, b: b}, crel{op: 'l', a: a, b: b})
		}
	}
	alln := append(append([]cterm{}, all...), posts...)
	for i, a := range alln {
		for j, b := range alln {
			if i == j || i < len(all) && j < len(all) {
				continue
			}
			if j < i {
				k.postC = append(k.postC, crel{op: '=', a: a, b: b})
			}
			k.postC = append(k.postC, crel{op: '<', a: a, b: b}, crel{op: 'l', a: a, b: b})
		}
	}
	for _, r := range ints {
		for _, p := range pres {
			if p.kind != 'p' {
				continue
			}
			for _, b := range append(append([]cterm{}, pres...), ints...) {
				if b == r || b == p {
					continue
				}
				k.postC = append(k.postC, crel{op: '<', a: r, plus: p, hasPlus: true, b: b}, crel{op: 'l', a: r, plus: p, hasPlus: true, b: b})
			}
		}
	}
	rank := func(c crel) int {
		switch c.op {
		case 'n':
			return 0
		case '=':
			return 1
		case '<':
			return 2
		}
		return 3
	}
	sort.SliceStable(k.preC, func(i, j int) bool { return rank(k.preC[i]) < rank(k.preC[j]) })
	sort.SliceStable(k.postC, func(i, j int) bool { return rank(k.postC[i]) < rank(k.postC[j]) })
	k.pre = make([]bool, len(k.preC))
	for i := range k.pre {
		k.pre[i] = true
	}
	return k
}

// cframe is where the terms of a contract are evaluated.
type cframe struct {
	args []Val
	pre  map[cterm]*Expr // values of fields at the call
	res  []Val
}

func structOf(d *D, v Val) (*StructV, bool) {
	if x, ok := v.(*IfaceV); ok {
		v = x.V
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil, false
	}
	s, ok := d.st.load(p, nil).(*StructV)
	return s, ok
}

func (d *D) cterm(t cterm, fr *cframe) *Expr {
	c := d.in.C
	switch t.kind {
	case '0':
		return c.Zero
	case 'p':
		e, _ := fr.args[t.i].(*Expr)
		return e
	case 'c':
		return c.Int(int64(t.i))
	case 'l':
		return sliceLen(c, fr.args[t.i])
	case 's':
		if fr.res == nil {
			return nil
		}
		if _, isNil := fr.res[t.i].(*NilV); isNil {
			return nil
		}
		s, ok := structOf(d, fr.res[t.i])
		if !ok {
			return nil
		}
		e, _ := s.F[t.f].(*Expr)
		return e
	case 'r':
		if fr.res == nil {
			return nil
		}
		e, _ := fr.res[t.i].(*Expr)
		return e
	}
	if !t.post && fr.pre != nil {
		return fr.pre[t]
	}
	s, ok := structOf(d, fr.args[t.i])
	if !ok || t.f >= len(s.F) {
		return nil
	}
	if t.kind == 'm' {
		return sliceLen(c, s.F[t.f])
	}
	e, _ := s.F[t.f].(*Expr)
	return e
}

func sliceLen(c *Ctx, v Val) *Expr {
	switch s := v.(type) {
	case *SliceV:
		return s.Len
	case *NilV:
		return c.Zero
	}
	return nil
}

// condition is what a candidate says, or nil.
func (d *D) condition(x crel, fr *cframe) *Expr {
	c := d.in.C
	if x.op == 'n' {
		v := Val(nil)
		switch x.a.kind {
		case 'p':
			v = fr.args[x.a.i]
			if i, ok := v.(*IfaceV); ok {
				v = i.V
			}
		case 'r':
			v = fr.res[x.a.i]
		}
		if v == nil {
			return nil
		}
		return c.Not(d.st.isNil(v))
	}
	a, b := d.cterm(x.a, fr), d.cterm(x.b, fr)
	if x.hasPlus {
		p := d.cterm(x.plus, fr)
		if p == nil || a == nil {
			return nil
		}
		a = c.Add(a, p)
	}
	if a == nil || b == nil {
		return nil
	}
	switch x.op {
	case '<':
		return c.Lt(a, b)
	case 'l':
		return c.Le(a, b)
	}
	return c.EqI(a, b)
}

// holds tells whether a candidate is established.
func (d *D) holds(x crel, fr *cframe) bool {
	e := d.condition(x, fr)
	return e != nil && d.st.F.Decide(e) == Yes
}

func (d *D) oldFields(k *contract, args []Val) map[cterm]*Expr {
	m := map[cterm]*Expr{}
	fr := &cframe{args: args}
	for _, x := range k.postC {
		for _, t := range []cterm{x.a, x.b} {
			if (t.kind == 'f' || t.kind == 'm') && !t.post {
				if _, ok := m[t]; !ok {
					m[t] = d.cterm(t, fr)
				}
			}
		}
	}
	return m
}

// ---- calls ----

// contractKey names a function with the dynamic types of its interfaces.
func contractKey(fn *ssa.Function, args []Val) (string, map[int]types.Type, bool) {
	key := fn.RelString(nil)
	ifs := map[int]types.Type{}
	for i, q := range fn.Params {
		if _, ok := under(q.Type()).(*types.Interface); !ok {
			continue
		}
		x, ok := args[i].(*IfaceV)
		if !ok {
			return "", nil, false
		}
		ifs[i] = x.T
		key += "|" + types.TypeString(x.T, nil)
		if p, ok := under(x.T).(*types.Pointer); ok {
			if !flatStruct(p.Elem()) {
				return "", nil, false
			}
		} else if s, ok := under(x.T).(*types.Struct); !ok || s.NumFields() > 0 {
			return "", nil, false
		}
	}
	return key, ifs, true
}

func (in *Interp) contractCall(d *D, fn *ssa.Function, args []Val, pos token.Pos) ([]outcome, bool) {
	s := in.cs
	key, ifs, ok := contractKey(fn, args)
	if !ok {
		return nil, false
	}
	k := s.known[key]
	s.used[key] = true
	if in.quiet == 0 {
		cc := k
		if cc == nil {
			cc = s.newC[key]
			if cc == nil {
				cc = in.newContract(key, fn, ifs)
				s.newC[key] = cc
			}
		}
		bad := s.noPre[key]
		if bad == nil {
			bad = make([]bool, len(cc.preC))
			s.noPre[key] = bad
		}
		fr := &cframe{args: args}
		for i, x := range cc.preC {
			if cc.pre[i] && !bad[i] && !d.holds(x, fr) {
				bad[i] = true
				if os.Getenv("AI_CONTRACT") != "" {
					fmt.Println("PRE", key, x.show(cc), "at", in.P.Pos(pos))
				}
			}
		}
		if r := s.root; r != nil && s.scc[r.fn] == s.scc[fn] {
			in.recursiveCall(d, r, fn, args, pos)
		}
	}
	if k == nil {
		return nil, true // not known to return
	}
	pre := d.oldFields(k, args)
	var kinds []string
	for x := range k.post {
		kinds = append(kinds, x)
	}
	sort.Strings(kinds)
	var outs []outcome
	for _, kind := range kinds {
		x := &D{in: in, st: d.st.fork(), fr: d.fr}
		in.havocArgs(x, fn, args)
		rs := fn.Signature.Results()
		res := make([]Val, rs.Len())
		n := 0
		for i := range res {
			T := rs.At(i).Type()
			switch {
			case isErrT(T):
				if kind[n] == 'n' {
					res[i] = in.zero(T)
				} else {
					res[i] = in.newError(x, fn.Name(), nil)
				}
				n++
			case isBasic(T, types.IsBoolean):
				res[i] = in.C.Bool(kind[n] == 't')
				n++
			default:
				res[i] = in.symVal(in.fresh("res:"+fn.Name(), T), T, false)
			}
		}
		fr := &cframe{args: args, pre: pre, res: res}
		dead := false
		for i, y := range k.postC {
			if !k.post[kind][i] {
				continue
			}
			if e := x.condition(y, fr); e != nil && x.st.F.Decide(e) != Yes && !x.st.F.Assume(e) {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		var ret Val
		switch len(res) {
		case 0:
		case 1:
			ret = res[0]
		default:
			ret = TupleV(res)
		}
		outs = append(outs, outcome{x.st, ret})
	}
	return outs, true
}

// havocArgs forgets the structs arguments point to.
func (in *Interp) havocArgs(d *D, fn *ssa.Function, args []Val) {
	for _, a := range args {
		if i, ok := a.(*IfaceV); ok {
			a = i.V
		}
		p, ok := a.(*Ptr)
		if !ok {
			continue
		}
		T := p.O.T
		if len(p.Path) > 0 {
			panic(stuck{"pointer into a struct given to " + fn.Name()})
		}
		now := in.symVal(in.fresh("after:"+fn.Name(), T), T, false)
		if y, ok := now.(*StructV); ok {
			if x, ok := d.st.load(p, nil).(*StructV); ok {
				for i, how := range in.stores(T) {
					if how == 0 {
						y.F[i] = x.F[i]
					}
				}
			}
		}
		d.st.store(p, now)
	}
}

const (
	moveKeep = 1 << iota // the same
	moveUp               // larger, and bounded before
	moveDown             // smaller, and bounded before
)

// recursiveCall records how a recursive call is bounded.
func (in *Interp) recursiveCall(d *D, r *contract, fn *ssa.Function, args []Val, pos token.Pos) {
	s, c, F := in.cs, in.C, d.st.F
	id := r.fn.RelString(nil) + ">" + fn.RelString(nil) + "@" + in.P.Pos(pos)
	e := s.edges[id]
	first := e == nil
	if first {
		e = &cedge{from: r.fn, to: fn, moves: map[[2]int]byte{}, pos: in.P.Pos(pos)}
		s.edges[id] = e
	}
	for i, v := range s.rootD {
		a, ok := v.(*Expr)
		if !ok || !isIntT(r.fn.Params[i].Type()) {
			continue
		}
		for j, w := range args {
			b, ok := w.(*Expr)
			if !ok || !isIntT(fn.Params[j].Type()) {
				continue
			}
			var m byte
			if F.Decide(c.EqI(a, b)) == Yes {
				m = moveKeep
			} else if F.Decide(c.Le(a, c.Int(1<<20))) == Yes {
				if F.Decide(c.Lt(a, b)) == Yes {
					m = moveUp
				} else if F.Decide(c.Lt(b, a)) == Yes && F.Decide(c.Le(c.Zero, a)) == Yes {
					m = moveDown
				}
			}
			x := [2]int{i, j}
			if !first {
				m &= e.moves[x]
			}
			e.moves[x] = m
		}
	}
}

// analyseContract analyses a function for all arguments which satisfy its precondition.
func (in *Interp) analyseContract(k *contract) {
	s := in.cs
	s.root = k
	in.NoPanic = true
	st := &State{in: in, heap: map[*Obj]Val{}, F: newFacts(in.C)}
	in.initGlobals(st)
	d := &D{in: in, st: st}
	args := make([]Val, len(k.fn.Params))
	for i, q := range k.fn.Params {
		if T, ok := k.iface[i]; ok {
			args[i] = &IfaceV{T: T, V: in.symVal(in.fresh(q.Name(), T), T, false)}
			continue
		}
		args[i] = in.symVal(in.fresh(q.Name(), q.Type()), q.Type(), false)
		if sl, ok := args[i].(*SliceV); ok {
			st.F.Assume(in.C.Le(sl.Len, sl.Cap))
		}
	}
	s.rootD = args
	fr := &cframe{args: args}
	for i, x := range k.preC {
		if k.pre[i] {
			if e := d.condition(x, fr); e != nil && st.F.Decide(e) != Yes && !st.F.Assume(e) {
				return // contradictory: not called so far
			}
		}
	}
	pre := d.oldFields(k, args)
	bad := s.noPost
	outs := in.call(d, k.fn, nil, args, k.fn.Pos())
	rs := k.fn.Signature.Results()
	for _, o := range outs {
		x := &D{in: in, st: o.st}
		var res []Val
		switch v := o.ret.(type) {
		case TupleV:
			res = v
		case nil:
		default:
			res = []Val{v}
		}
		// the kinds of this outcome
		todo := []*D{x}
		kinds := []string{""}
		for i, v := range res {
			T := rs.At(i).Type()
			var e *Expr
			var y, n string
			switch {
			case isErrT(T):
				e, y, n = x.st.isNil(v), "n", "e"
			case isBasic(T, types.IsBoolean):
				e, y, n = v.(*Expr), "t", "f"
			default:
				continue
			}
			var t2 []*D
			var k2 []string
			for j, z := range todo {
				switch z.st.F.Decide(e) {
				case Yes:
					t2, k2 = append(t2, z), append(k2, kinds[j]+y)
				case No:
					t2, k2 = append(t2, z), append(k2, kinds[j]+n)
				default:
					w := &D{in: in, st: z.st.fork()}
					if z.st.F.Assume(e) {
						t2, k2 = append(t2, z), append(k2, kinds[j]+y)
					}
					if w.st.F.Assume(in.C.Not(e)) {
						t2, k2 = append(t2, w), append(k2, kinds[j]+n)
					}
				}
			}
			todo, kinds = t2, k2
		}
		for j, z := range todo {
			b := bad[kinds[j]]
			if b == nil {
				b = make([]bool, len(k.postC))
				bad[kinds[j]] = b
			}
			fr := &cframe{args: args, pre: pre, res: res}
			alive := k.post[kinds[j]]
			for i, y := range k.postC {
				if b[i] || alive != nil && !alive[i] {
					continue
				}
				if !z.holds(y, fr) {
					b[i] = true
					if os.Getenv("AI_CONTRACT") == "3" {
						fmt.Println("POST", k.key, kinds[j], y.show(k), fmt.Sprint(res), len(outs))
					}
				}
			}
		}
	}
}

// unifyAny forgets the difference between two bytes, and between two errors.
func (in *Interp) unifyAny(a, b Val, f, g *Facts) (Val, bool) {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			return nil, false
		}
		if !in.joinBytes || !isIntExpr(x) || !isIntExpr(y) {
			return nil, false
		}
		e := in.fresh("byte", types.Typ[types.Uint8])
		lo, hi := int64(0), int64(255)
		for _, h := range []struct {
			f *Facts
			e *Expr
		}{{f, x}, {g, y}} {
			if h.f.Decide(in.C.Le(in.C.Zero, h.e)) != Yes || h.f.Decide(in.C.Le(h.e, in.C.Int(255))) != Yes {
				return nil, false
			}
		}
		small := in.C.Int(15)
		if f.Decide(in.C.Le(x, small)) == Yes && g.Decide(in.C.Le(y, small)) == Yes {
			hi = 15
		}
		for _, h := range []*Facts{f, g} {
			h.Assume(in.C.Le(in.C.Int(lo), e))
			h.Assume(in.C.Le(e, in.C.Int(hi)))
		}
		return e, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || !types.Identical(x.T, y.T) {
			return nil, false
		}
		p, ok1 := x.V.(*Ptr)
		q, ok2 := y.V.(*Ptr)
		if !ok1 || !ok2 || p.O.Sym == nil || q.O.Sym == nil || !p.O.NonNil || !q.O.NonNil || !types.Implements(x.T, errorIface) {
			return nil, false
		}
		return &IfaceV{T: x.T, V: &Ptr{O: in.symObj(in.fresh("err", elemOf(x.T)), elemOf(x.T), 'v', false, true)}}, true
	}
	return nil, false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// ---- values handed out from a store ----

// handedOut replaces the address of an element by one of its own object, if elements are handed out only once.
func (in *Interp) handedOut(d *D, fn *ssa.Function, args []Val, old *StructV, outs []outcome) {
	pt, ok := under(fn.Signature.Recv().Type()).(*types.Pointer)
	if old == nil || !ok || !flatStruct(pt.Elem()) {
		return
	}
	how := in.stores(pt.Elem())
	c := in.C
	for i, o := range outs {
		p, ok := o.ret.(*Ptr)
		if !ok || len(p.Path) == 0 {
			continue
		}
		last := p.Path[len(p.Path)-1]
		if last.Idx == nil {
			continue
		}
		now, ok := structOf(&D{in: in, st: o.st}, args[0])
		if !ok {
			continue
		}
		mine, once := false, false
		for j := range old.F {
			switch x := old.F[j].(type) {
			case *SliceV:
				if how[j] == 0 && x.Arr.O == p.O && len(x.Arr.Path) == len(p.Path)-1 && x.Off == c.Zero {
					mine = true
				}
			case *Expr:
				y, ok := now.F[j].(*Expr)
				if ok && how[j] <= 1 && isIntExpr(x) && o.st.F.Decide(c.Le(x, last.Idx)) == Yes && o.st.F.Decide(c.Lt(last.Idx, y)) == Yes {
					once = true
				}
			}
		}
		if mine && once {
			T := fn.Signature.Results().At(0).Type()
			n := in.newObj(elemOf(T), 'v', "handed out by "+fn.Name())
			o.st.put(n, in.symVal(in.fresh("handed", elemOf(T)), elemOf(T), false))
			outs[i].ret = &Ptr{O: n}
		}
	}
}

// stores tells for each field of a struct whether it is never stored to after its construction (0), only increased (1),
// or anything else (2).
func (in *Interp) stores(S types.Type) []int {
	key := types.TypeString(S, nil)
	if r, ok := in.cs.stores[key]; ok {
		return r
	}
	u := under(S).(*types.Struct)
	r := make([]int, u.NumFields())
	all := func() {
		for i := range r {
			r[i] = 2
		}
	}
	for _, f := range in.P.Functions() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if types.Identical(elemOf(x.Addr.Type()), S) {
						if _, ok := x.Addr.(*ssa.Alloc); !ok {
							all()
						}
					}
				case *ssa.FieldAddr:
					if !types.Identical(elemOf(x.X.Type()), S) {
						continue
					}
					if _, ok := x.X.(*ssa.Alloc); ok {
						continue
					}
					for _, y := range *x.Referrers() {
						r[x.Field] = max(r[x.Field], storeKind(x, y))
					}
				}
			}
		}
	}
	in.cs.stores[key] = r
	return r
}

func storeKind(x *ssa.FieldAddr, u ssa.Instruction) int {
	switch y := u.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return 0
	case *ssa.Store:
		if y.Addr != x {
			return 2
		}
		add, ok := y.Val.(*ssa.BinOp)
		if !ok || add.Op != token.ADD {
			return 2
		}
		ld, ok := add.X.(*ssa.UnOp)
		n, ok2 := add.Y.(*ssa.Const)
		if !ok || !ok2 || ld.Op != token.MUL || n.Int64() < 0 {
			return 2
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fa.X != x.X || fa.Field != x.Field {
			return 2
		}
		return 1
	}
	return 2
}

// ---- shared words made of two halves ----

// halves are the relations between the halves of a shared word which every stored word satisfies.
func (in *Interp) halves(hi, lo *Expr) [4]*Expr {
	c := in.C
	return [4]*Expr{c.Le(c.One, lo), c.Le(c.One, hi), c.Le(lo, hi), c.Le(hi, c.Int(1<<31-1))}
}

func (in *Interp) loadHalves(d *D, p *Ptr, e *Expr) {
	w := in.wordName(p)
	if !in.cs.words[w][4] {
		// the zero value has this property
		d.st.assume(in.C.Le(e, in.C.Int(1<<62)))
	}
	if !in.cs.stored[w] {
		return
	}
	hi := d.arith(token.SHR, e, in.C.Int(32), e.T).(*Expr)
	lo := d.arith(token.AND, e, in.C.Int(1<<32-1), e.T).(*Expr)
	for i, x := range in.halves(hi, lo) {
		if !in.cs.words[w][i] {
			d.st.assume(x)
		}
	}
}

func (in *Interp) wordName(p *Ptr) string {
	s := p.O.name()
	for _, x := range p.Path {
		s += fmt.Sprint(".", x.Field)
	}
	return s
}

func (in *Interp) storeHalves(d *D, p *Ptr, v Val) {
	w := in.wordName(p)
	if in.inInit {
		in.cs.stored[w] = true
	} else if in.quiet > 0 {
		return
	}
	bad := in.cs.noWord[w]
	defer func() { in.cs.noWord[w] = bad }()
	e, ok := v.(*Expr)
	if !ok {
		bad = [5]bool{true, true, true, true, true}
		return
	}
	c := in.C
	e = d.st.F.find(e)
	if d.st.F.Decide(c.Le(c.Zero, e)) != Yes || d.st.F.Decide(c.Le(e, c.Int(1<<62))) != Yes {
		bad[4] = true
	}
	wrapped := false
	if e.Op == OWrap && bits(e.T) == 64 && isUnsigned(e.T) {
		// with both halves in range the sum does not overflow
		e, wrapped = e.Args[0], true
	}
	var h, o *Expr
	if n, ok := e.Int64(); ok {
		h, o = c.Int(n>>32), c.Int(n&(1<<32-1))
	} else {
		l := c.lin(e)
		hi, lo := &Lin{C: l.C >> 32}, &Lin{C: l.C & (1<<32 - 1)}
		for _, t := range l.T {
			if t.K%(1<<32) == 0 {
				hi.T = append(hi.T, LTerm{t.K >> 32, t.A})
			} else {
				lo.T = append(lo.T, t)
			}
		}
		h, o = c.fromLin(hi), c.fromLin(lo)
	}
	inside := d.st.F.Decide(c.Le(c.Zero, o)) == Yes && d.st.F.Decide(c.Lt(o, c.Int(1<<32))) == Yes
	if wrapped {
		inside = inside && d.st.F.Decide(c.Le(c.Zero, h)) == Yes && d.st.F.Decide(c.Lt(h, c.Int(1<<31))) == Yes
	}
	for i, x := range in.halves(h, o) {
		if !inside || d.st.F.Decide(x) != Yes {
			if !bad[i] && os.Getenv("AI_CONTRACT") != "" {
				fmt.Println("WORD", w, i, x, "stored", e)
			}
			bad[i] = true
		}
	}
}

// ---- the fixpoint ----

func (x crel) show(k *contract) string {
	t := func(t cterm) string {
		s := ""
		switch t.kind {
		case '0':
			s = "0"
		case 'p':
			s = k.fn.Params[t.i].Name()
		case 'l':
			s = "len(" + k.fn.Params[t.i].Name() + ")"
		case 'r':
			s = fmt.Sprint("result", t.i)
		case 'c':
			s = fmt.Sprint(t.i)
		case 's':
			s = fmt.Sprint("result", t.i, ".", t.f)
		case 'f', 'm':
			T := k.fn.Params[t.i].Type()
			if q, ok := k.iface[t.i]; ok {
				T = q
			}
			s = k.fn.Params[t.i].Name() + "." + under(elemOf(T)).(*types.Struct).Field(t.f).Name()
			if t.kind == 'm' {
				s = "len(" + s + ")"
			}
		}
		if t.post {
			s += "'"
		}
		return s
	}
	a := t(x.a)
	if x.hasPlus {
		a += "+" + t(x.plus)
	}
	switch x.op {
	case 'n':
		return a + " != nil"
	case 'l':
		return a + " <= " + t(x.b)
	case '=':
		return a + " == " + t(x.b)
	}
	return a + " < " + t(x.b)
}

// RunContracts analyses the drivers of a property, and the functions they call by contract.
func RunContracts(in0 func() *Interp, spec *ssa.Package, id string, r *report.Report) {
	var fns []*ssa.Function
	for n, m := range spec.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Spec"+id) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	isFn, scc := contractFns(in0())
	known := map[string]*contract{}
	words := map[string][5]bool{}
	deadline := time.Now().Add(700 * time.Second).UnixNano()
	type task struct {
		name   string
		driver *ssa.Function
		k      *contract
		in     *Interp
		sig    string // state of the contracts it depends on
	}
	sigOf := func(t *task) string {
		var keys []string
		for k := range t.in.cs.used {
			keys = append(keys, k)
		}
		if t.k != nil {
			keys = append(keys, t.k.key)
		}
		sort.Strings(keys)
		s := fmt.Sprint(words)
		for _, key := range keys {
			s += key
			if k := known[key]; k != nil {
				s += fmt.Sprint(k.pre, k.post)
			}
		}
		return s
	}
	rounds := 0
	last := map[string]*task{}
	var tasks []*task
	for {
		rounds++
		tasks = nil
		var keys []string
		for k := range known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			tasks = append(tasks, &task{name: k, k: known[k]})
		}
		for _, f := range fns {
			tasks = append(tasks, &task{name: f.Name(), driver: f})
		}
		sem := make(chan bool, 8)
		done := make(chan bool, len(tasks))
		for _, t := range tasks {
			if o := last[t.name]; o != nil && o.sig == sigOf(o) {
				// nothing it depends on has changed
				t.in, t.sig = o.in, o.sig
				go func() { done <- true }()
				continue
			}
			sem <- true
			go func(t *task) {
				in := in0()
				t.in = in
				in.Bytes = true
				in.C.forget = in
				in.MergeLimit = mergeLimits[0]
				in.deadline = &deadline
				in.cs = &csession{known: known, isFn: isFn, scc: scc, newC: map[string]*contract{}, noPre: map[string][]bool{}, noPost: map[string][]bool{}, edges: map[string]*cedge{}, stores: map[string][]int{}, words: words, noWord: map[string][5]bool{}, stored: map[string]bool{}, used: map[string]bool{}}
				t0 := time.Now()
				defer func() {
					if e := recover(); e != nil {
						in.Stucks[fmt.Sprint("internal error: ", e)] = t.name
						if in.trace {
							panic(e)
						}
					}
					if os.Getenv("AI_CONTRACT") != "" {
						fmt.Printf("round %d %s: %d steps, %.1f s, %d stuck, %d violations\n", rounds, t.name, in.Steps, time.Since(t0).Seconds(), len(in.Stucks), len(in.Viols))
					}
					// keep the findings only
					in.cs.root, in.cs.rootD = nil, nil
					t.in = &Interp{P: in.P, cs: in.cs, Steps: in.Steps, Funcs: in.Funcs, Obls: in.Obls, order: in.order, Viols: in.Viols, Stucks: in.Stucks}
					<-sem
					done <- true
				}()
				if t.k != nil {
					in.analyseContract(t.k)
				} else {
					in.Driver(t.driver)
				}
			}(t)
		}
		for range tasks {
			<-done
		}
		for _, t := range tasks {
			if t.sig == "" {
				t.sig = sigOf(t)
			}
			last[t.name] = t
		}
		changed := false
		next := map[string]*contract{}
		nextWords := map[string][5]bool{}
		for w, x := range words {
			nextWords[w] = x
		}
		for key, k := range known {
			x := *k
			x.pre = append([]bool{}, k.pre...)
			x.post = map[string][]bool{}
			for kind, a := range k.post {
				x.post[kind] = append([]bool{}, a...)
			}
			next[key] = &x
		}
		for _, t := range tasks {
			for key, k := range t.in.cs.newC {
				if next[key] == nil {
					next[key] = k
					changed = true
				}
			}
		}
		for _, t := range tasks {
			for key, bad := range t.in.cs.noPre {
				k := next[key]
				for i, b := range bad {
					if b && k.pre[i] {
						k.pre[i] = false
						changed = true
					}
				}
			}
			if t.k != nil {
				k := next[t.k.key]
				for kind, bad := range t.in.cs.noPost {
					if k.post[kind] == nil {
						a := make([]bool, len(k.postC))
						for i := range a {
							a[i] = true
						}
						k.post[kind] = a
						changed = true
					}
					for i, b := range bad {
						if b && k.post[kind][i] {
							k.post[kind][i] = false
							changed = true
						}
					}
				}
			}
			for w, bad := range t.in.cs.noWord {
				x := nextWords[w]
				for i, b := range bad {
					if b && !x[i] {
						x[i] = true
						changed = true
					}
				}
				nextWords[w] = x
			}
		}
		known, words = next, nextWords
		if !changed || rounds > 40 || time.Now().UnixNano() > deadline {
			if changed {
				r.Fail(report.Violation{Rule: "undecided", Where: "-", Func: "-", What: "no fixpoint of the contracts"})
			}
			break
		}
	}
	r.Rule = "Abstract interpretation of the drivers (functions Spec" + id + "*) over the SSA form of the repository, with contracts: recursive functions and large functions with loops are analysed once, for all arguments which satisfy their inferred precondition, and replaced by their inferred postcondition at calls. Every operation of the repository which may panic (indexing, slicing, dereferences, divisions, type assertions, stores to maps) is an obligation, and must be excluded on every abstract path; recursion must be bounded by a parameter."
	total, steps := 0, 0
	edges := map[string]*cedge{}
	for _, t := range tasks {
		in := t.in
		for _, k := range in.order {
			total++
			r.Oblige(t.name + ": " + k)
			r.Samples = append(r.Samples, fmt.Sprintf("%s: %s: %d states, %d not established", t.name, k, in.Obls[k].N, in.Obls[k].Bad))
		}
		for _, v := range in.Viols {
			r.Fail(report.Violation{Rule: v.Key, Where: v.Pos, Func: v.Fn, What: v.What, Path: v.Path})
		}
		if t.driver != nil {
			for _, id := range asserts(t.driver) {
				if _, ok := in.Obls[t.driver.Name()+": "+id]; !ok {
					r.Fail(report.Violation{Rule: "driver " + t.driver.Name(), Where: in.P.Pos(t.driver.Pos()), Func: t.driver.Name(), What: "obligation never reached: " + id})
				}
			}
		}
		var ks []string
		for k := range in.Stucks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.Fail(report.Violation{Rule: "undecided", Where: in.Stucks[k], Func: t.name, What: "the analysis cannot follow: " + k})
		}
		for f := range in.Funcs {
			r.Functions[f.RelString(nil)] = true
		}
		steps += in.Steps
		for id, e := range in.cs.edges {
			if o := edges[id]; o != nil {
				for x := range o.moves {
					o.moves[x] &= e.moves[x]
				}
			} else {
				edges[id] = e
			}
		}
	}
	boundRecursion(edges, r)
	for key, k := range known {
		if len(k.post) == 0 {
			r.Fail(report.Violation{Rule: "undecided", Where: "-", Func: key, What: "the function is not found to return"})
		}
		if os.Getenv("AI_CONTRACT") != "" {
			fmt.Println("CONTRACT", key)
			for i, x := range k.preC {
				if k.pre[i] {
					fmt.Println("   pre ", x.show(k))
				}
			}
			for kind, a := range k.post {
				for i, x := range k.postC {
					if a[i] {
						fmt.Println("   post", kind, x.show(k))
					}
				}
			}
		}
	}
	r.Analysed["drivers"] = len(fns)
	r.Analysed["contracts"] = len(known)
	r.Analysed["recursive_calls"] = len(edges)
	r.Analysed["rounds"] = rounds
	r.Analysed["instructions_interpreted"] = steps
}

// boundRecursion looks for a parameter of each recursive function by which the depth is bounded.
func boundRecursion(edges map[string]*cedge, r *report.Report) {
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var ids []string
	for id, e := range edges {
		ids = append(ids, id)
		for _, f := range []*ssa.Function{e.from, e.to} {
			if !seen[f] {
				seen[f] = true
				fns = append(fns, f)
			}
		}
	}
	sort.Strings(ids)
	sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	choice := map[*ssa.Function]int{}
	// no cycle of calls keeps the parameter as it is
	moving := func() bool {
		state := map[*ssa.Function]int{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			if state[f] != 0 {
				return state[f] == 2
			}
			state[f] = 1
			for _, e := range edges {
				if e.from == f && e.moves[[2]int{choice[e.from], choice[e.to]}] == moveKeep && !visit(e.to) {
					return false
				}
			}
			state[f] = 2
			return true
		}
		for _, f := range fns {
			if !visit(f) {
				return false
			}
		}
		return true
	}
	var try func(n int, how byte) bool
	try = func(n int, how byte) bool {
		if n == len(fns) {
			return moving()
		}
		for i := range fns[n].Params {
			choice[fns[n]] = i
			ok := true
			for _, e := range edges {
				a, k1 := choice[e.from]
				b, k2 := choice[e.to]
				if m := e.moves[[2]int{a, b}]; k1 && k2 && m != moveKeep && m != how {
					ok = false
					break
				}
			}
			if ok && try(n+1, how) {
				return true
			}
		}
		delete(choice, fns[n])
		return false
	}
	for _, id := range ids {
		r.Oblige("recursion is bounded: " + id)
	}
	if try(0, moveUp) || try(0, moveDown) {
		return
	}
	// name the calls which bound nothing
	found := false
	for _, id := range ids {
		any := false
		for _, m := range edges[id].moves {
			any = any || m != 0
		}
		if !any {
			found = true
			r.Fail(report.Violation{Rule: "recursion is bounded", Where: edges[id].pos, Func: edges[id].from.RelString(nil), What: "no parameter bounds the depth of the recursive call of " + edges[id].to.RelString(nil)})
		}
	}
	if !found {
		r.Fail(report.Violation{Rule: "recursion is bounded", Where: edges[ids[0]].pos, Func: edges[ids[0]].from.RelString(nil), What: "no parameter bounds the depth of the recursion"})
	}
}
