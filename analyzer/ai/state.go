package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is one disjunct of the abstract state (without the frames' registers).
type State struct {
	in   *Interp
	heap map[*Obj]Val
	F    *Facts
	dead bool
	note []string // decisions of the partition, for reports
	log  []heapUndo
	recs []*FuncV // what recursive calls do, by signature
	subs *FuncV   // told the errors of conversions of parts
	out  *sink    // observes the output
}

type heapUndo struct {
	o   *Obj
	old Val
	had bool
}

// put sets the content of an object.
func (st *State) put(o *Obj, v Val) {
	old, had := st.heap[o]
	st.log = append(st.log, heapUndo{o, old, had})
	st.heap[o] = v
}

// mark starts a transaction, rollback undoes it.
func (st *State) mark() {
	st.log = st.log[:0]
	st.F.mark()
}

func (st *State) rollback() {
	for i := len(st.log) - 1; i >= 0; i-- {
		u := st.log[i]
		if u.had {
			st.heap[u.o] = u.old
		} else {
			delete(st.heap, u.o)
		}
	}
	st.log = st.log[:0]
	st.F.rollback()
}

func (st *State) fork() *State {
	h := make(map[*Obj]Val, len(st.heap)+4)
	for k, v := range st.heap {
		h[k] = v
	}
	return &State{in: st.in, heap: h, recs: st.recs[:len(st.recs):len(st.recs)], subs: st.subs, out: st.out, F: st.F.copy(), note: st.note[:len(st.note):len(st.note)]}
}

// split asks for a case distinction on a condition.
type split struct{ c *Expr }

// kill says that the current case cannot happen.
type kill struct{}

// stuck says that a construct is not modelled.
type stuck struct{ what string }

// must decides a condition, splitting the state if need be.
func (st *State) must(c *Expr) bool {
	switch st.F.Decide(c) {
	case Yes:
		return true
	case No:
		return false
	}
	panic(split{c})
}

// assume adds a fact; a contradiction kills the state.
func (st *State) assume(c *Expr) {
	if !st.F.Assume(c) {
		panic(kill{})
	}
}

func (in *Interp) newObj(T types.Type, kind byte, site string) *Obj {
	in.nobj++
	return &Obj{id: in.nobj, T: T, Kind: kind, Fresh: true, Site: site, NonNil: true}
}

// symObj gives the object a pointer (slice, map) term refers to.
func (in *Interp) symObj(e *Expr, T types.Type, kind byte, valid, nonNil bool) *Obj {
	if o, ok := in.symObjs[e]; ok {
		if valid {
			o.Valid = true
		}
		if nonNil {
			o.NonNil = true
		}
		return o
	}
	in.nobj++
	o := &Obj{id: in.nobj, T: T, Kind: kind, Sym: e, Valid: valid, NonNil: nonNil}
	in.symObjs[e] = o
	return o
}

func (in *Interp) symObjLike(e *Expr, o *Obj) *Obj {
	return in.symObj(e, o.T, o.Kind, o.Valid, o.NonNil)
}

func (in *Interp) fresh(name string, t types.Type) *Expr {
	in.nsym++
	e := in.C.Sym(name+"'"+strconv.Itoa(in.nsym), t)
	in.freshNo[e] = in.nsym
	return e
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	if t == nil {
		return "?"
	}
	s := types.TypeString(t, func(*types.Package) string { return "" })
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

// symVal is the value of type T named by the term e.
func (in *Interp) symVal(e *Expr, T types.Type, valid bool) Val {
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return &RV{Term: e}
	}
	c := in.C
	switch u := under(T).(type) {
	case *types.Basic:
		return e
	case *types.Pointer:
		nn := valid && in.R != nil && in.R.isV(u.Elem())
		return &Ptr{O: in.symObj(e, u.Elem(), 'v', valid, nn)}
	case *types.Slice:
		isnil := c.App("isnil", tBool, e)
		ln := c.App("len", tInt, e)
		cp := c.App("cap", tInt, e)
		return &SliceV{Arr: &Ptr{O: in.symObj(e, u.Elem(), 'a', valid, true)}, Elem: u.Elem(), Off: c.Zero, Len: ln, Cap: cp, Nil: isnil}
	case *types.Map:
		return &MapV{O: in.symObj(e, T, 'm', valid, true), Nil: c.App("isnil", tBool, e)}
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			f := u.Field(i)
			fs[i] = in.symVal(c.App("."+f.Name(), f.Type(), e), f.Type(), valid)
		}
		return &StructV{T: T, F: fs}
	case *types.Array:
		return &SeqV{Base: e, Elem: u.Elem(), N: c.Int(u.Len()), Valid: valid}
	case *types.Interface, *types.Signature, *types.Chan:
		return e
	case *types.Tuple:
		t := make(TupleV, u.Len())
		for i := range t {
			t[i] = in.symVal(c.App("#"+strconv.Itoa(i), u.At(i).Type(), e), u.At(i).Type(), valid)
		}
		return t
	}
	panic(stuck{"value of type " + T.String()})
}

// zero is the zero value of a type.
func (in *Interp) zero(T types.Type) Val {
	c := in.C
	switch u := under(T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return c.Zero
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsString != 0:
			return c.Const("", T)
		case u.Info()&types.IsFloat != 0:
			return c.Const(float64(0), T)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return &NilV{T}
		}
	case *types.Struct:
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
			return &RV{}
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = in.zero(u.Field(i).Type())
		}
		return &StructV{T: T, F: fs}
	case *types.Array:
		return &SeqV{Elem: u.Elem(), N: c.Int(u.Len())}
	case *types.Tuple:
		t := make(TupleV, u.Len())
		for i := range t {
			t[i] = in.zero(u.At(i).Type())
		}
		return t
	}
	return &NilV{T}
}

// content gives the content of an object.
func (st *State) content(o *Obj) Val {
	if v, ok := st.heap[o]; ok {
		return v
	}
	if o.Sym == nil {
		panic(stuck{"no content for " + o.name()})
	}
	return st.materialise(o)
}

// materialise describes the content of an object known by name only.
func (st *State) materialise(o *Obj) Val {
	in := st.in
	if m, ok := in.matCache[o]; ok {
		st.invariants(o, m)
		return m
	}
	var v Val
	switch o.Kind {
	case 'a':
		v = &SeqV{Base: o.Sym, Elem: o.T, Valid: o.Valid}
	case 'm':
		mt := under(o.T).(*types.Map)
		v = &MapC{Base: o.Sym, K: mt.Key(), V: mt.Elem(), Len: in.C.App("len", tInt, o.Sym), Valid: o.Valid}
	default:
		v = in.symVal(in.C.App("*", o.T, o.Sym), o.T, o.Valid)
	}
	in.matCache[o] = v
	st.invariants(o, v)
	return v
}

// ---- addresses ----

// alias maps an object to the modified object it is the same as.
func (st *State) alias(o *Obj) *Obj {
	if o.Sym == nil {
		return o
	}
	if e := st.F.find(o.Sym); e != o.Sym {
		if p, ok := st.in.symObjs[e]; ok {
			o = p
		}
	}
	if o.Sym.Op != OApp || (o.Sym.Name != "elem" && o.Sym.Name != "at" && !strings.HasPrefix(o.Sym.Name, ".")) {
		return o
	}
	for w := range st.heap {
		if w == o || w.Sym == nil || w.Kind != o.Kind || w.Sym.Op != OApp || !types.Identical(w.T, o.T) {
			continue
		}
		if _, own := st.heap[o]; own {
			break
		}
		if c := st.sameTerm(w.Sym, o.Sym); c != nil && c != st.in.C.False && st.must(c) {
			return w
		}
	}
	return o
}

// sameTerm gives the condition under which two terms of the initial (tree shaped) memory denote the same location;
// nil if they never do.
func (st *State) sameTerm(a, b *Expr) *Expr {
	c := st.in.C
	if a == b {
		return c.True
	}
	if a.Op != OApp || b.Op != OApp || a.Name != b.Name || len(a.Args) != len(b.Args) {
		return nil
	}
	switch a.Name {
	case "elem":
		p := st.sameTerm(a.Args[0], b.Args[0])
		if p == nil {
			return nil
		}
		return c.And(p, c.EqI(a.Args[1], b.Args[1]))
	case "at":
		p := st.sameTerm(a.Args[0], b.Args[0])
		if p == nil {
			return nil
		}
		return c.And(p, st.eqKey(a.Args[1], b.Args[1]))
	}
	if len(a.Args) == 1 {
		return st.sameTerm(a.Args[0], b.Args[0])
	}
	return nil
}

// eqKey compares two map keys.
func (st *State) eqKey(a, b *Expr) *Expr {
	c := st.in.C
	if a.T != nil && IsInt(a.T) || a.Op == OLin || b.Op == OLin {
		return c.EqI(a, b)
	}
	st.closeLower()
	a, b = st.F.find(a), st.F.find(b)
	if a.Op == OApp && b.Op == OApp && a.Name == "keyat" && b.Name == "keyat" && a.Args[0] == b.Args[0] {
		return c.EqI(a.Args[1], b.Args[1])
	}
	e := c.EqO(a, b)
	for _, p := range [][2]*Expr{{a, b}, {b, a}} {
		if k := p[0]; k.Op == OApp && k.Name == "keyat" && st.in.mapOf[k.Args[0]] != nil {
			st.linkKey(e, k, p[1])
		}
	}
	return e
}

// closeLower equates the lower case of equal texts.
func (st *State) closeLower() {
	for i, x := range st.in.lowers {
		for _, y := range st.in.lowers[:i] {
			if x != y && st.F.find(x.Args[0]) == st.F.find(y.Args[0]) && st.F.find(x) != st.F.find(y) {
				st.assume(st.in.C.EqO(st.F.find(x), st.F.find(y)))
			}
		}
	}
}

// linkKey relates the equality of an iterated key and another key to the other's position in the iteration.
func (st *State) linkKey(e, k, q *Expr) {
	if e.Op == OConst || st.in.linking {
		return
	}
	st.in.linking = true
	defer func() { st.in.linking = false }()
	c := st.in.C
	has := st.mapHas(st.in.mapOf[k.Args[0]], q)
	pos, x := st.posOf(k.Args[0], q), k.Args[1]
	for x.Op == OApp && x.Name == "perm" {
		pos, x = st.invPerm(x.Args[0], pos, has), x.Args[1]
	}
	at := c.EqI(pos, x)
	for _, x := range []*Expr{c.Or(c.Not(e), has), c.Or(c.Not(e), at), c.Or(e, c.Or(c.Not(has), c.Not(at)))} {
		if x != c.True {
			st.F.Assume(x)
		}
	}
}

// invPerm is the position to which a permutation moves the element at pos.
func (st *State) invPerm(perm, pos, cond *Expr) *Expr {
	c := st.in.C
	if pos.Op == OApp && pos.Name == "perm" && pos.Args[0] == perm {
		return pos.Args[1]
	}
	e := c.App("invperm", tInt, perm, pos)
	known := false
	for _, p := range st.in.invTerms {
		known = known || p.e == e
	}
	if !known {
		st.in.invTerms = append(st.in.invTerms, invTerm{e, cond})
	}
	if n := st.in.permLen[perm]; n != nil {
		if x := c.Or(c.Not(cond), c.Lt(e, n)); x != c.True {
			st.F.Assume(x)
		}
	}
	return e
}

// invTerm is the position of a key in a permuted sequence, if the key is in it.
type invTerm struct{ e, cond *Expr }

// posOf is the step of the iteration over a map at which a key comes up.
func (st *State) posOf(id, q *Expr) *Expr {
	c := st.in.C
	if q.Op == OApp && q.Name == "keyat" && q.Args[0] == id {
		return q.Args[1]
	}
	pos := c.App("posof", tInt, id, q)
	known := false
	for _, p := range st.in.posTerms[id] {
		known = known || p == pos
	}
	if !known {
		st.in.posTerms[id] = append(st.in.posTerms[id], pos)
	}
	mc := st.in.mapOf[id]
	has := st.mapHas(mc, q)
	for _, x := range []*Expr{c.Or(c.Not(has), c.Le(c.Zero, pos)), c.Or(c.Not(has), c.Lt(pos, mc.Len))} {
		if x != c.True {
			st.F.Assume(x)
		}
	}
	return pos
}

func (st *State) load(p *Ptr, T types.Type) Val {
	o := st.alias(p.O)
	v := st.content(o)
	for _, s := range p.Path {
		v = st.sub(v, s)
	}
	return st.view(v, T)
}

// view converts between memory layouts of strings and byte slices (unsafe casts).
func (st *State) view(v Val, T types.Type) Val {
	if T == nil {
		return v
	}
	isString := isBasic(T, types.IsString)
	sl, isSlice := under(T).(*types.Slice)
	switch x := v.(type) {
	case *SliceV:
		if isString {
			return st.bytesToString(x)
		}
	case *NilV:
		if isString {
			return st.in.C.Str("")
		}
	case *StructV:
		if isSlice && len(x.F) > 0 {
			if e, ok := x.F[0].(*Expr); ok && isStr(e) {
				_ = sl
				return st.stringToBytes(e, true)
			}
			if s, ok := x.F[0].(*SliceV); ok {
				return s
			}
		}
		if isString && len(x.F) > 0 {
			return st.view(x.F[0], T)
		}
	case *Expr:
		if isSlice && isStr(x) {
			return st.stringToBytes(x, true)
		}
	}
	return v
}

func (st *State) sub(v Val, s Step) Val {
	if s.Idx == nil {
		sv, ok := v.(*StructV)
		if !ok {
			panic(stuck{"field of " + showVal(v)})
		}
		return sv.F[s.Field]
	}
	q, ok := v.(*SeqV)
	if !ok {
		panic(stuck{"element of " + showVal(v)})
	}
	return st.seqRead(q, s.Idx)
}

func (st *State) store(p *Ptr, v Val) {
	o := st.alias(p.O)
	if len(p.Path) == 0 {
		if _, ok := st.heap[o]; !ok && o.Sym != nil {
			st.content(o)
		}
		st.put(o, v)
		return
	}
	st.put(o, st.update(st.content(o), p.Path, v))
}

func (st *State) update(c Val, path []Step, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.Idx == nil {
		sv, ok := c.(*StructV)
		if !ok {
			panic(stuck{"store to field of " + showVal(c)})
		}
		fs := append([]Val{}, sv.F...)
		fs[s.Field] = st.update(fs[s.Field], path[1:], v)
		return &StructV{T: sv.T, F: fs}
	}
	q, ok := c.(*SeqV)
	if !ok {
		panic(stuck{"store to element of " + showVal(c)})
	}
	if st.in.forgets(q.Elem) {
		return q
	}
	if len(path) > 1 {
		v = st.update(st.seqRead(q, s.Idx), path[1:], v)
	}
	return q.write(s.Idx, v)
}

// ---- sequences ----

// anyArray stands for all arrays of which nothing is known.
func (in *Interp) anyArray(T types.Type) *Ptr {
	return &Ptr{O: in.symObj(in.C.Sym("arrays of "+T.String(), tInt), T, 'a', false, true)}
}

// forgets tells whether the elements of lists of a type are not followed.
func (in *Interp) forgets(T types.Type) bool {
	if !in.Bytes {
		return false
	}
	if p, ok := under(T).(*types.Pointer); ok {
		return in.R.isV(p.Elem())
	}
	return isByteT(T)
}

func isByteT(T types.Type) bool {
	b, ok := under(T).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (q *SeqV) with(u *SeqUpd) *SeqV {
	u.Prev = q.Upd
	if u.Prev != nil {
		u.depth = u.Prev.depth + 1
	}
	y := *q
	y.Upd = u
	return &y
}

func (q *SeqV) write(idx *Expr, v Val) *SeqV {
	// overwriting the last write to the same place keeps the chain short
	if u := q.Upd; u != nil && u.Idx == idx {
		y := *q
		y.Upd = u.Prev
		return y.with(&SeqUpd{Idx: idx, V: v})
	}
	if n, ok := idx.Int64(); ok {
		// remove an older write to the same constant index if only constant writes follow it
		for u := q.Upd; u != nil && u.Idx != nil && u.Idx.isConst(); u = u.Prev {
			if m, _ := u.Idx.Int64(); m == n {
				y := *q
				y.Upd = dropUpd(q.Upd, u)
				return y.with(&SeqUpd{Idx: idx, V: v})
			}
		}
	}
	return q.with(&SeqUpd{Idx: idx, V: v})
}

func dropUpd(u, x *SeqUpd) *SeqUpd {
	if u == x {
		return u.Prev
	}
	y := *u
	y.Prev = dropUpd(u.Prev, x)
	return &y
}

func (st *State) seqRead(q *SeqV, k *Expr) Val {
	c := st.in.C
	if st.in.forgets(q.Elem) && !st.in.inInit {
		return st.in.symVal(st.in.fresh("elem", q.Elem), q.Elem, false)
	}
	kc, kconst := k.Int64()
	if !kconst && q.Base == nil {
		if v, ok := st.tableRead(q, k); ok {
			return v
		}
	}
	for u := q.Upd; u != nil; u = u.Prev {
		switch {
		case u.Perm != nil:
			if st.must(c.Lt(k, u.N)) {
				p := c.App("perm", tInt, u.Perm, k)
				st.assume(c.Le(c.Zero, p))
				st.assume(c.Lt(p, u.N))
				k = p
				kconst = false
			}
		case u.Src != nil:
			if u.N == c.Zero {
				continue
			}
			if st.must(c.Le(u.To, k)) && st.must(c.Lt(k, c.Add(u.To, u.N))) {
				return st.seqRead(u.Src, c.Add(c.Sub(k, u.To), u.From))
			}
		case u.Var != nil:
			if u.N == c.Zero {
				continue
			}
			if st.must(c.Le(u.To, k)) && st.must(c.Lt(k, c.Add(u.To, u.N))) {
				return st.in.substVal(u.V, map[*Expr]*Expr{u.Var: c.Sub(k, u.To)})
			}
		default:
			if kconst {
				if n, ok := u.Idx.Int64(); ok {
					if n == kc {
						return u.V
					}
					continue
				}
			}
			if st.must(c.EqI(k, u.Idx)) {
				return u.V
			}
		}
	}
	return st.baseElem(q, k)
}

// tableRead reads at an unknown position of a table whose elements are all known: one case for each run of equal ones.
func (st *State) tableRead(q *SeqV, k *Expr) (Val, bool) {
	c := st.in.C
	vals := map[int64]Val{}
	var idx []int64
	for u := q.Upd; u != nil; u = u.Prev {
		if u.Perm != nil || u.Src != nil || u.Var != nil {
			return nil, false
		}
		n, ok := u.Idx.Int64()
		if !ok {
			return nil, false
		}
		if _, dup := vals[n]; !dup {
			vals[n] = u.V
			idx = append(idx, n)
		}
	}
	if len(idx) < 8 {
		return nil, false
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	for i := 0; i < len(idx); {
		j := i
		for j+1 < len(idx) && idx[j+1] == idx[j]+1 && sameVal(vals[idx[j+1]], vals[idx[i]]) {
			j++
		}
		if st.must(c.Le(c.Int(idx[i]), k)) && st.must(c.Le(k, c.Int(idx[j]))) {
			return vals[idx[i]], true
		}
		i = j + 1
	}
	return st.in.zero(q.Elem), true
}

func (st *State) baseElem(q *SeqV, k *Expr) Val {
	in := st.in
	c := in.C
	if q.Base == nil {
		return in.zero(q.Elem)
	}
	if b := q.Base; b.Op == OApp && b.Name == "bytesof" {
		return st.byteAt(b.Args[0], k)
	}
	// the same position may have been read under another name
	if in.idxUsed == nil {
		in.idxUsed = map[*Expr][]*Expr{}
	}
	seen := false
	for _, u := range in.idxUsed[q.Base] {
		if u == k {
			seen = true
			break
		}
		if st.F.Decide(c.EqI(u, k)) == Yes {
			k, seen = u, true
			break
		}
	}
	if !seen {
		in.idxUsed[q.Base] = append(in.idxUsed[q.Base], k)
	}
	return in.symVal(c.App("elem", q.Elem, q.Base, k), q.Elem, q.Valid)
}

// byteAt is byte k of a string.
func (st *State) byteAt(s, k *Expr) *Expr {
	c := st.in.C
	s = st.F.find(s)
	if s.Op == OConst {
		if n, ok := k.Int64(); ok {
			x := s.C.(string)
			if n >= 0 && n < int64(len(x)) {
				return c.Int(int64(x[n]))
			}
		} else if x := s.C.(string); len(x) >= 8 && len(x) <= 64 && st.must(c.Le(c.Zero, k)) && st.must(c.Lt(k, c.Int(int64(len(x))))) {
			// a table of characters: one case for each run of consecutive ones
			for i := 0; ; {
				j := i + 1
				for j < len(x) && x[j] == x[j-1]+1 {
					j++
				}
				if j == len(x) || st.must(c.Lt(k, c.Int(int64(j)))) {
					return c.AddK(k, int64(x[i])-int64(i))
				}
				i = j
			}
		}
	}
	if s.Op == OApp && s.Name == "substr" {
		return st.byteAt(s.Args[0], c.Add(s.Args[1], k))
	}
	if s.Op == OApp && s.Name == "chr" && k == c.Zero {
		return s.Args[0]
	}
	if s.Op == OApp && s.Name == "runestr" && k == c.Zero {
		if r := s.Args[0]; st.must(c.Le(c.Zero, r)) && st.must(c.Lt(r, c.Int(0x80))) {
			return r
		}
		b := c.AppDom("byteat", tByte, 256, s, k)
		st.assume(c.Le(c.Int(0xC2), b))
		return b
	}
	if s.Op == OApp && s.Name == "runestr" {
		if n, ok := k.Int64(); ok && n > 0 {
			b := c.AppDom("byteat", tByte, 256, s, k)
			st.assume(c.Le(c.Int(0x80), b))
			st.assume(c.Lt(b, c.Int(0xC0)))
			return b
		}
	}
	if s.Op == OApp && s.Name == "concat" {
		l := c.Len(s.Args[0])
		if st.must(c.Lt(k, l)) {
			return st.byteAt(s.Args[0], k)
		}
		k = c.Sub(k, l)
		if k.Op != OConst && s.Args[1].Op == OConst {
			k = st.settled(k)
		}
		return st.byteAt(s.Args[1], k)
	}
	return c.AppDom("byteat", tByte, 256, s, k)
}

// substr is s[lo:hi].
func (st *State) substr(s, lo, hi *Expr) *Expr {
	c := st.in.C
	if r := st.F.find(s); r != s && (r.Op == OConst || r.Op == OApp && r.Name == "concat") {
		s = r
	}
	if lo == c.Zero && st.F.Decide(c.EqI(hi, c.Len(s))) == Yes {
		return s
	}
	if st.F.Decide(c.EqI(lo, hi)) == Yes {
		return c.Str("")
	}
	if s.Op == OConst {
		a, ok1 := lo.Int64()
		b, ok2 := hi.Int64()
		if x := s.C.(string); ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(x)) {
			return c.Str(x[a:b])
		}
	}
	if s.Op == OApp && s.Name == "substr" {
		return st.substr(s.Args[0], c.Add(s.Args[1], lo), c.Add(s.Args[1], hi))
	}
	if s.Op == OApp && s.Name == "concat" {
		a, b := s.Args[0], s.Args[1]
		l := c.Len(a)
		switch {
		case st.must(c.Le(hi, l)):
			return st.substr(a, lo, hi)
		case st.must(c.Le(l, lo)):
			return st.substr(b, c.Sub(lo, l), c.Sub(hi, l))
		case st.must(c.Le(lo, l)) && st.must(c.Le(l, hi)):
			return c.Concat(st.substr(a, lo, l), st.substr(b, c.Zero, c.Sub(hi, l)))
		}
	}
	return c.App("substr", tString, s, lo, hi)
}

func (st *State) stringToBytes(s *Expr, view bool) Val {
	in := st.in
	c := in.C
	o := in.newObj(tByte, 'a', "bytes")
	ln := c.Len(s)
	if s.Op == OConst && len(s.C.(string)) <= 64 {
		q := &SeqV{Elem: tByte}
		for i, b := range []byte(s.C.(string)) {
			q = q.with(&SeqUpd{Idx: c.Int(int64(i)), V: c.Int(int64(b))})
		}
		q.Base = c.App("bytesof", tString, s)
		q.Upd = nil
		st.put(o, q)
	} else {
		st.put(o, &SeqV{Base: c.App("bytesof", tString, s), Elem: tByte})
	}
	_ = view
	return &SliceV{Arr: &Ptr{O: o}, Elem: tByte, Off: c.Zero, Len: ln, Cap: ln, Nil: c.False}
}

// bytesToString is string(b).
func (st *State) bytesToString(b *SliceV) *Expr {
	in := st.in
	c := in.C
	if st.in.Bytes && !st.in.inInit {
		e := in.fresh("text", tString)
		st.assume(c.EqI(c.Len(e), b.Len))
		return e
	}
	q := st.load(b.Arr, nil).(*SeqV)
	if st.F.Decide(c.EqI(b.Len, c.Zero)) == Yes {
		return c.Str("")
	}
	if e := st.seqString(q, b.Off, c.Add(b.Off, b.Len), 0); e != nil {
		return e
	}
	// constant bytes
	if n, ok := b.Len.Int64(); ok && n <= 64 {
		var bs []byte
		good := true
		for i := int64(0); i < n && good; i++ {
			e, ok := st.seqRead(q, c.AddK(b.Off, i)).(*Expr)
			x, ok2 := e.Int64()
			if !ok || !ok2 {
				good = false
				break
			}
			bs = append(bs, byte(x))
		}
		if good {
			return c.Str(string(bs))
		}
	}
	if q.Base != nil && q.Upd == nil {
		return c.App("strof", tString, q.Base, b.Len, b.Off)
	}
	// a few bytes, one by one
	if n, ok := b.Len.Int64(); ok && n <= 16 {
		r := c.Str("")
		for i := int64(0); i < n; i++ {
			e, ok := st.seqRead(q, c.AddK(b.Off, i)).(*Expr)
			if !ok {
				r = nil
				break
			}
			r = c.Concat(r, c.App("chr", tString, e))
		}
		if r != nil {
			return r
		}
	}
	return c.App("strof", tString, in.fresh("bytes", tString), b.Len, b.Off)
}

// seqString tries to name bytes lo..hi of a sequence as a string.
func (st *State) seqString(q *SeqV, lo, hi *Expr, depth int) *Expr {
	c := st.in.C
	if depth > 40 {
		return nil
	}
	if lo == hi || st.F.Decide(c.EqI(lo, hi)) == Yes {
		return c.Str("")
	}
	u := q.Upd
	if u == nil {
		if q.Base != nil && q.Base.Op == OApp && q.Base.Name == "bytesof" {
			return st.substr(q.Base.Args[0], lo, hi)
		}
		if q.Base != nil {
			return c.App("strof", tString, q.Base, c.Sub(hi, lo), lo)
		}
		return nil
	}
	switch {
	case u.Src != nil:
		end := c.Add(u.To, u.N)
		// the update covers [To, end): split into before, inside, after
		if st.F.Decide(c.EqI(end, hi)) == Yes && st.F.Decide(c.Le(lo, u.To)) == Yes {
			prev := *q
			prev.Upd = u.Prev
			a := st.seqString(&prev, lo, u.To, depth+1)
			b := st.seqString(u.Src, u.From, c.Add(u.From, u.N), depth+1)
			if a == nil || b == nil {
				return nil
			}
			return c.Concat(a, b)
		}
		if st.F.Decide(c.Le(u.To, lo)) == Yes && st.F.Decide(c.Le(hi, end)) == Yes {
			d := c.Sub(u.From, u.To)
			return st.seqString(u.Src, c.Add(lo, d), c.Add(hi, d), depth+1)
		}
		if st.F.Decide(c.Le(hi, u.To)) == Yes || st.F.Decide(c.Le(end, lo)) == Yes || u.N == c.Zero {
			prev := *q
			prev.Upd = u.Prev
			return st.seqString(&prev, lo, hi, depth+1)
		}
	case u.Idx != nil:
		if st.F.Decide(c.EqI(c.AddK(u.Idx, 1), hi)) == Yes && st.F.Decide(c.Le(lo, u.Idx)) == Yes {
			prev := *q
			prev.Upd = u.Prev
			a := st.seqString(&prev, lo, u.Idx, depth+1)
			e, ok := u.V.(*Expr)
			if a == nil || !ok {
				return nil
			}
			if n, ok := e.Int64(); ok {
				return c.Concat(a, c.Str(string([]byte{byte(n)})))
			}
			return c.Concat(a, c.App("chr", tString, e))
		}
		if st.F.Decide(c.Le(hi, u.Idx)) == Yes || st.F.Decide(c.Lt(u.Idx, lo)) == Yes {
			prev := *q
			prev.Upd = u.Prev
			return st.seqString(&prev, lo, hi, depth+1)
		}
	}
	return nil
}

// Concat is a + b.
func (c *Ctx) Concat(a, b *Expr) *Expr {
	if a.Op == OConst && b.Op == OConst {
		return c.Str(a.C.(string) + b.C.(string))
	}
	if a.Op == OConst && a.C == "" {
		return b
	}
	if b.Op == OConst && b.C == "" {
		return a
	}
	// keep to the left: (x + "a") + "b" = x + "ab", x + (y + z) = (x + y) + z
	if b.Op == OApp && b.Name == "concat" {
		return c.Concat(c.Concat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == OApp && a.Name == "concat" && b.Op == OConst && a.Args[1].Op == OConst {
		return c.App("concat", tString, a.Args[0], c.Str(a.Args[1].C.(string)+b.C.(string)))
	}
	return c.App("concat", tString, a, b)
}

// ---- maps ----

func (mc *MapC) with(u *MapUpd) *MapC {
	u.Prev = mc.Upd
	if u.Prev != nil {
		u.depth = u.Prev.depth + 1
	}
	y := *mc
	y.Upd = u
	return &y
}

// mapHas is the condition under which a key is present.
func (st *State) mapHas(mc *MapC, key *Expr) *Expr {
	c := st.in.C
	var rec func(u *MapUpd) *Expr
	rec = func(u *MapUpd) *Expr {
		if u == nil {
			if mc.Base == nil {
				return c.False
			}
			return st.baseHas(mc.Base, key)
		}
		if u.All != nil {
			return c.Or(st.allHas(u, key), rec(u.Prev))
		}
		eq := st.eqKey(key, u.Key.(*Expr))
		if st.in.EnumMaps && mc.Base == nil {
			eq = c.Bool(st.must(eq))
		}
		if st.F.Decide(eq) == Yes {
			eq = c.True
		} else if st.F.Decide(eq) == No {
			eq = c.False
		}
		if u.Del {
			return c.And(c.Not(eq), rec(u.Prev))
		}
		if eq == c.True {
			return c.True
		}
		return c.Or(eq, rec(u.Prev))
	}
	return rec(mc.Upd)
}

// allHas tells whether a key is among those an iteration has entered.
func (st *State) allHas(u *MapUpd, key *Expr) *Expr {
	c := st.in.C
	has := st.mapHas(u.All, key)
	if u.Cond == nil || st.F.Decide(c.EqI(u.Cond, u.All.Len)) == Yes {
		return has
	}
	return c.And(has, c.Lt(st.posOf(st.mapID(u.All), st.F.find(key)), u.Cond))
}

func (st *State) baseHas(base, key *Expr) *Expr {
	c := st.in.C
	k := st.F.find(key)
	if k.Op == OApp && k.Name == "keyat" && k.Args[0] == base {
		return c.True
	}
	if k2 := key; k2.Op == OApp && k2.Name == "keyat" && k2.Args[0] == base {
		return c.True
	}
	if tw := st.in.twins; tw != nil {
		base = c.subst(base, tw)
		for _, x := range []*Expr{k, key} {
			if x.Op == OApp && x.Name == "keyat" && c.subst(x.Args[0], tw) == base {
				return c.True
			}
		}
	}
	h := c.App("has", tBool, base, k)
	if k.Op == OApp && k.Name == "keyat" {
		st.notThis(h, base, k)
	}
	return h
}

// notThis relates whether an iterated key is in another map to the position of a key which the driver knows not to be
// there.
func (st *State) notThis(h, base, k *Expr) {
	in, c := st.in, st.in.C
	mc := in.mapOf[k.Args[0]]
	if mc == nil || in.linking {
		return
	}
	for _, s := range in.anyStrs {
		s = st.F.find(s)
		if st.F.Decide(c.App("has", tBool, base, s)) != No || st.F.Decide(st.mapHas(mc, s)) != Yes {
			continue
		}
		if e := c.Or(c.Not(st.eqKey(k, s)), c.Not(h)); e.Op != OConst {
			st.F.Assume(e)
		}
	}
}

// mapGet looks a key up.
func (st *State) mapGet(mc *MapC, key *Expr) (Val, bool) {
	in := st.in
	for u := mc.Upd; u != nil; u = u.Prev {
		if u.All != nil {
			if st.must(st.allHas(u, key)) {
				return in.substVal(u.V, map[*Expr]*Expr{u.Var: st.F.find(key)}), true
			}
			continue
		}
		if st.must(st.eqKey(key, u.Key.(*Expr))) {
			if u.Del {
				return in.zero(mc.V), false
			}
			return u.V, true
		}
	}
	if mc.Base == nil {
		return in.zero(mc.V), false
	}
	h := st.baseHas(mc.Base, key)
	if !st.must(h) {
		return in.zero(mc.V), false
	}
	// a map with an entry is not empty
	st.assume(in.C.Le(in.C.One, in.C.App("len", tInt, mc.Base)))
	return in.symVal(in.C.App("at", mc.V, mc.Base, st.F.find(key)), mc.V, mc.Valid), true
}

// mapPut sets or deletes (v == nil) a key.
func (st *State) mapPut(mc *MapC, key *Expr, v Val) *MapC {
	c := st.in.C
	had := st.mapHas(mc, key)
	switch st.F.Decide(had) {
	case Yes:
		had = c.True
	case No:
		had = c.False
	}
	// a term used as a key is named by its representative
	y := mc.with(&MapUpd{Key: key, V: v, Del: v == nil})
	if v == nil {
		y.Len = c.Sub(mc.Len, c.B2I(had))
	} else {
		y.Len = c.Add(mc.Len, c.Sub(c.One, c.B2I(had)))
	}
	// drop an older update of the very same key
	for u := mc.Upd; u != nil; u = u.Prev {
		if u.All == nil && u.Key == Val(key) {
			y.Upd = &MapUpd{Prev: dropMapUpd(mc.Upd, u), Key: key, V: v, Del: v == nil}
			break
		}
		if u.All != nil {
			break
		}
	}
	return y
}

func dropMapUpd(u, x *MapUpd) *MapUpd {
	if u == x {
		return u.Prev
	}
	y := *u
	y.Prev = dropMapUpd(u.Prev, x)
	return &y
}

// mapID names the content of a map for iteration.
func (st *State) mapID(mc *MapC) *Expr {
	if mc.Upd == nil && mc.Base != nil {
		if st.in.mapOf[mc.Base] == nil {
			st.in.mapOf[mc.Base] = mc
		}
		return mc.Base
	}
	if e, ok := st.in.mapIDs[mc]; ok {
		return e
	}
	e := st.in.fresh("map", types.NewMap(mc.K, mc.V))
	st.in.mapIDs[mc] = e
	st.in.mapOf[e] = mc
	return e
}

// ---- nilness and equality ----

// isNil is the condition under which a reference is nil.
func (st *State) isNil(v Val) *Expr {
	c := st.in.C
	switch x := v.(type) {
	case *NilV:
		return c.True
	case *Ptr:
		if len(x.Path) > 0 || x.O.Sym == nil || x.O.NonNil {
			return c.False
		}
		return c.App("isnil", tBool, st.F.find(x.O.Sym))
	case *SliceV:
		if x.Nil == nil {
			return c.False
		}
		return x.Nil
	case *MapV:
		if x.Nil == nil {
			return c.False
		}
		return x.Nil
	case *IfaceV, *FuncV:
		return c.False
	case *Expr:
		return c.App("isnil", tBool, st.F.find(x))
	}
	panic(stuck{fmt.Sprintf("nil test of %T", v)})
}

// equal is the condition under which two values of a comparable type are equal.
func (st *State) equal(a, b Val) *Expr {
	c := st.in.C
	if _, ok := a.(*NilV); ok {
		return st.isNil(b)
	}
	if _, ok := b.(*NilV); ok {
		return st.isNil(a)
	}
	switch x := a.(type) {
	case *RV: // drivers compare parts of one value by their positions
		y, ok := b.(*RV)
		if !ok || x.Term == nil || y.Term == nil {
			break
		}
		if x.Term == y.Term {
			return c.True
		}
		if x.Term.Op == OApp && y.Term.Op == OApp && x.Term.Name == y.Term.Name && len(x.Term.Args) == len(y.Term.Args) {
			r := c.True
			for i, u := range x.Term.Args {
				r = c.And(r, st.equal(u, y.Term.Args[i]))
			}
			return r
		}
		return c.EqO(x.Term, y.Term)
	case *Expr:
		switch y := b.(type) {
		case *Expr:
			if x.T != nil && IsInt(x.T) || x.Op == OLin || y.Op == OLin || (y.T != nil && IsInt(y.T)) {
				return c.EqI(x, y)
			}
			if x.T != nil && isBasicFloat(x.T) && x == y {
				return c.Not(st.in.isNaN(x))
			}
			if isStr(x) && isStr(y) {
				return st.eqKey(x, y)
			}
			return c.EqO(st.F.find(x), st.F.find(y))
		case *IfaceV: // unknown interface against a known one
			return c.App("ifaceeq", tBool, x, in0(st, y))
		}
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			break
		}
		ox, oy := st.alias(x.O), st.alias(y.O)
		if len(x.Path) != len(y.Path) {
			return c.False
		}
		r := c.True
		if ox != oy {
			if ox.Sym == nil && oy.Sym == nil {
				return c.False
			}
			if ox.Sym == nil || oy.Sym == nil {
				s := ox
				if s.Sym == nil {
					s = oy
				}
				if s.Sym.Op == OSym && s.Sym.Dom == -1 {
					return c.App("ptreq", tBool, s.Sym, c.Int(int64(ox.id)), c.Int(int64(oy.id)))
				}
				return c.False
			}
			e := st.sameTerm(ox.Sym, oy.Sym)
			if e == nil {
				e = c.EqO(ox.Sym, oy.Sym)
			}
			r = e
		}
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if p.Idx == nil || q.Idx == nil {
				if p.Field != q.Field || (p.Idx == nil) != (q.Idx == nil) {
					return c.False
				}
				continue
			}
			r = c.And(r, c.EqI(p.Idx, q.Idx))
		}
		return r
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			break
		}
		r := c.True
		for i := range x.F {
			r = c.And(r, st.equal(x.F[i], y.F[i]))
		}
		return r
	case *IfaceV:
		switch y := b.(type) {
		case *IfaceV:
			if !types.Identical(x.T, y.T) {
				return c.False
			}
			return st.equal(x.V, y.V)
		case *Expr:
			return c.App("ifaceeq", tBool, y, in0(st, x))
		}
	case *SeqV:
		y, ok := b.(*SeqV)
		if ok && x.N != nil {
			n, _ := x.N.Int64()
			r := c.True
			for i := int64(0); i < n; i++ {
				r = c.And(r, st.equal(st.seqRead(x, c.Int(i)), st.seqRead(y, c.Int(i))))
			}
			return r
		}
	case *RT:
		if y, ok := b.(*RT); ok {
			if x.T != nil && y.T != nil {
				return c.Bool(types.Identical(x.T, y.T))
			}
			id := func(r *RT) *Expr {
				if r.T != nil {
					return c.Int(st.in.tid(r.T))
				}
				return c.App("dyntype", tInt, st.F.find(r.Term))
			}
			return c.EqI(id(x), id(y))
		}
	}
	panic(stuck{fmt.Sprintf("comparison of %s and %s", showVal(a), showVal(b))})
}

// in0 names an interface value.
func in0(st *State, v *IfaceV) *Expr {
	if e, ok := v.V.(*Expr); ok {
		return e
	}
	return st.in.C.Str("iface:" + showVal(v))
}

// global gives the object of a package-level variable.
func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	T := elemOf(g.Type())
	var o *Obj
	if g.Pkg != nil && in.P.InRepoPkg(g.Pkg) {
		in.nobj++
		o = &Obj{id: in.nobj, T: T, Kind: 'v', Site: g.String(), NonNil: true, Fresh: true}
	} else {
		o = in.symObj(in.C.Sym("global:"+g.String(), T), T, 'v', false, true)
	}
	in.globals[g] = o
	return o
}
