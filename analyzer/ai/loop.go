package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unrollLimit bounds the iterations whose exit test is decided by the state.
const unrollLimit = 600

// loop solves a loop: iterations whose exit test is decided are followed one by one; the others by fixpoint iteration
// over header states, in which everything that changes is generalised.
func (in *Interp) loop(fi *fnInfo, l *loopInfo, ds []*D) regionOut {
	var out regionOut
	test := exitTest(l)
	var rest []*D
	work := append([]*D{}, ds...)
	for n, round := 0, 0; len(work) > 0; n, round = n+len(work), round+1 {
		if n > unrollLimit && !in.EnumMaps {
			rest = append(rest, work...)
			break
		}
		var now []*D
		for _, d := range work {
			if in.decided(fi, l, d, test, round > 4 || round > 0 && len(in.keyWatches) > 0) {
				now = append(now, d)
			} else {
				rest = append(rest, d)
			}
		}
		if len(now) == 0 {
			break
		}
		ro := in.region(fi, l, l.head, now)
		out.rets = append(out.rets, ro.rets...)
		out.exits = append(out.exits, ro.exits...)
		work = work[:0]
		for _, b := range ro.backs {
			work = append(work, b.d)
		}
		if len(work) > in.MergeLimit {
			work = in.mergeDs(fi, l.head, work)
		}
	}
	if len(rest) == 0 {
		return out
	}
	in.LoopsFix++
	ro := in.fixpoint(fi, l, rest)
	out.rets = append(out.rets, ro.rets...)
	out.exits = append(out.exits, ro.exits...)
	return out
}

// exitTest gives the header's condition if it decides about leaving the loop.
func exitTest(l *loopInfo) *ssa.If {
	x, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if l.blocks[l.head.Succs[0]] && l.blocks[l.head.Succs[1]] {
		return nil
	}
	return x
}

// decided tells whether the next iteration of d is determined: the header's test is decided, or, without such a test,
// the iteration as a whole either stays or leaves. With hard set, it must be decided by constants.
func (in *Interp) decided(fi *fnInfo, l *loopInfo, d *D, test *ssa.If, hard bool) bool {
	in.quiet++
	defer func() { in.quiet-- }()
	saved := in.Stucks
	in.Stucks = map[string]string{}
	defer func() { in.Stucks = saved }()
	if test != nil {
		e := d.fork()
		ok := true
		for _, ins := range l.head.Instrs {
			switch ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
			default:
				if nx, ok := ins.(*ssa.Next); ok {
					if it, ok := e.val(nx.Iter).(*IterV); ok {
						n := it.Str
						if it.M != nil {
							n = it.M.Len
						}
						if (hard || it.M != nil) && (n == nil || n.Op != OConst) {
							return false
						}
						if x, ok := test.Cond.(*ssa.Extract); ok && x.Tuple == ssa.Value(nx) && x.Index == 0 && it.M == nil {
							// whether there is another character does not depend on which it is
							if g, ok := e.st.content(it.O).(*Expr); ok && n.Op != OConst {
								return e.st.F.Decide(in.C.Lt(g, in.C.Len(n))) != Unknown
							}
						}
					}
				}
				if _, isCall := ins.(*ssa.Call); isCall {
					// a call in the header: evaluate the block as a whole
					return in.decidedBlock(fi, l, d)
				}
				r := in.attempt(e, func() { e.exec(ins) })
				if r.kind != 'o' {
					return false
				}
				continue
			}
			break
		}
		if !ok {
			return false
		}
		c, isE := e.val(test.Cond).(*Expr)
		if isE && hard && c.Op != OConst {
			for _, a := range c.atoms {
				if _, known := e.st.F.smallVals(a); known {
					continue
				}
				if lo, hi, ok1, ok2 := e.st.F.bounds(a); !ok1 || !ok2 || hi-lo < 0 || hi-lo > 64 {
					return false
				}
			}
		}
		return isE && e.st.F.Decide(c) != Unknown
	}
	e := d.fork()
	ro := in.region(fi, l, l.head, []*D{e})
	if len(in.Stucks) > 0 {
		return false
	}
	return len(ro.backs) == 0 || len(ro.exits)+len(ro.rets) == 0
}

func (in *Interp) decidedBlock(fi *fnInfo, l *loopInfo, d *D) bool {
	var o regionOut
	as := in.block(fi, l.head, d.fork(), &o)
	stay, leave := 0, 0
	for _, a := range as {
		if l.blocks[a.to] {
			stay++
		} else {
			leave++
		}
	}
	return stay == 0 || leave == 0
}

// ---- header states ----

// gen is a generalised location of a header state.
type gen struct {
	path  string
	kind  byte // 'e' scalar, 'p' pointer to a named object, 's' sequence content, 'm' map content, 'i' unknown interface or function
	T     types.Type
	sym   *Expr
	val   Val // the value in the header state
	valid bool
	nn    bool
	len   *Expr // maps: term of the length
	entry []Val // value at every external arrival
	tmpl  *tmpl // contents filled step by step: what the steps done so far have written
	never bool  // no template fits
	stale *Expr // base of the content before the template was found
}

// tmpl describes what every iteration so far has written to a sequence (one element each) or a map (one entry each).
type tmpl struct {
	ind *gen  // counts the iterations
	i0  *Expr // its value at the entry
	v   *Expr // stands for the iteration (sequences) or the key (maps)
	to  *Expr // first position
	id  *Expr // maps: content whose keys are iterated
	V   Val

	// the iterations count down: i0 - sym elements were written, the one of iteration i at i+to; v stands for i
	down bool
}

type cand struct {
	c     *Expr
	ok    bool
	sym   *Expr // of a watched position: the integer that passes it
	entry *Expr
	w     *watch
	down  bool // of a watched position passed downwards
	cov   *cover
	q     *Expr
	kw    *watch // of a watched key
}

// keyHolds checks a candidate about a watched key: if the key came up just now, what is known about the key that came
// up is known about it.
func (cd *cand) keyHolds(in *Interp, st *State, sub map[*Expr]*Expr) bool {
	c := in.C
	e := c.subst(cd.c, sub)
	if st.F.Decide(e) == Yes {
		return true
	}
	n := st.fork()
	if !n.F.Assume(c.Not(e)) || !n.F.propagate() {
		return true
	}
	for _, k := range in.keysSeen {
		if n.F.Decide(n.eqKey(k, cd.kw.q)) != Yes {
			continue
		}
		p := c.subst(cd.kw.p, map[*Expr]*Expr{cd.kw.q: k})
		if q := n.F.Decide(cd.kw.p); q != Unknown && n.F.Decide(p) == -q {
			return true
		}
	}
	return false
}

// cover describes entries which the iterations put into a map: iteration ind the entry with the given key.
// "Every entry up to now is there" is proposed for the arbitrary positions of a driver.
type cover struct {
	g, ind *gen
	key    *Expr
	shift  int64 // position of the key in iteration ind, less ind
}

func (v *cover) at(c *Ctx, q *Expr) *Expr {
	return c.subst(v.key, map[*Expr]*Expr{v.ind.sym: c.AddK(q, -v.shift)})
}

// covered checks such a candidate at an arrival.
func (cd *cand) covered(in *Interp, st *State, m *matcher) bool {
	c := in.C
	v := cd.cov
	var mc *MapC
	for i, g := range m.filled {
		if g == v.g {
			mc, _ = m.fillv[i].(*MapC)
		}
	}
	now, ok := m.sub[v.ind.sym]
	if !ok || mc == nil {
		return false
	}
	n := st.fork()
	if !n.F.Assume(c.Lt(cd.q, c.AddK(now, v.shift))) || cd.entry != nil && !n.F.Assume(c.Le(cd.entry, cd.q)) {
		return true
	}
	from := v.ind.sym
	k, ok := c.Sub(now, from).Int64()
	if !ok {
		from, ok = v.ind.entry[0].(*Expr)
		if !ok {
			return false
		}
		k, ok = c.Sub(now, from).Int64()
	}
	if !ok || k < 0 || k > 12 {
		return false
	}
	for j := int64(0); j < k; j++ {
		if st.F.Decide(st.mapHas(mc, c.subst(v.key, map[*Expr]*Expr{v.ind.sym: c.AddK(from, j)}))) != Yes {
			return false
		}
	}
	if !n.F.Assume(c.Lt(cd.q, c.AddK(from, v.shift))) || n.F.Decide(n.mapHas(mc, v.at(c, cd.q))) == Yes {
		return true
	}
	// the first few one by one
	top, ok := c.AddK(from, v.shift).Int64()
	if !ok || top > 4 || n.F.Decide(c.Le(c.Zero, cd.q)) != Yes {
		return false
	}
	for j := int64(0); j < top; j++ {
		if n.F.Decide(c.EqI(cd.q, c.Int(j))) != No && n.F.Decide(n.mapHas(mc, v.at(c, c.Int(j)))) != Yes {
			return false
		}
	}
	return true
}

// watch is a condition about an arbitrary position of a text: "every position passed so far satisfies it" is proposed
// for each integer that runs over positions.
type watch struct{ lo, q, p *Expr }

// holds checks a candidate at an arrival.
func (cd *cand) holds(in *Interp, st *State, m *matcher) bool {
	sub := m.sub
	if cd.cov != nil {
		return cd.covered(in, st, m)
	}
	if cd.kw != nil {
		return cd.keyHolds(in, st, sub)
	}
	if cd.w == nil {
		return st.F.Decide(in.C.subst(cd.c, sub)) == Yes
	}
	c := in.C
	now := c.subst(cd.sym, sub)
	f := st.fork().F
	if cd.down {
		// the positions in (now, entry] were passed
		if !f.Assume(c.Le(cd.w.q, cd.entry)) || !f.Assume(c.Lt(now, cd.w.q)) || f.Decide(cd.w.p) == Yes {
			return true
		}
		from := cd.sym
		n, ok := c.Sub(from, now).Int64()
		if !ok {
			from = cd.entry
			n, ok = c.Sub(from, now).Int64()
		}
		if !ok || n < 0 || n > 12 {
			return false
		}
		for j := int64(0); j < n; j++ {
			if st.F.Decide(c.subst(cd.w.p, map[*Expr]*Expr{cd.w.q: c.AddK(from, -j)})) != Yes {
				return false
			}
		}
		return true
	}
	if !f.Assume(c.Le(cd.entry, cd.w.q)) || !f.Assume(c.Lt(cd.w.q, now)) || f.Decide(cd.w.p) == Yes {
		return true
	}
	// passed since the last arrival
	from := cd.sym
	n, ok := c.Sub(now, from).Int64()
	if !ok {
		from = cd.entry
		n, ok = c.Sub(now, from).Int64()
	}
	if !ok || n < 0 || n > 12 {
		return false
	}
	for j := int64(0); j < n; j++ {
		if st.F.Decide(c.subst(cd.w.p, map[*Expr]*Expr{cd.w.q: c.Add(from, c.Int(j))})) != Yes {
			return false
		}
	}
	return true
}

type hstate struct {
	in      *Interp
	fi      *fnInfo
	l       *loopInfo
	d0      *D
	entries []*D
	others  []*D // arrivals which come from other header states (they weaken the facts)
	gl      map[string]*gen
	order   []*gen
	cands   []*cand
	candKey map[*Expr]bool
	nums    []int
	types   map[int]types.Type
	id      int
	coarse  bool
	covers  []*cover
	nsym0   int // unknowns and objects made before the current round
	nobj0   int
}

type incompatible struct{ why string }

const maxParts = 24

func (in *Interp) fixpoint(fi *fnInfo, l *loopInfo, ds []*D) regionOut {
	var hs []*hstate
	nums, tps := liveAt(fi, l.head)
	place := func(d *D, from *hstate) bool { // true if something changed
		for _, h := range hs {
			ok, changed := h.absorb(d, from == h)
			if ok {
				return changed
			}
		}
		if len(hs) >= maxParts {
			for _, h := range hs {
				h.coarse = true
			}
			for _, h := range hs {
				if ok, ch := h.absorb(d, from == h); ok {
					return ch
				}
			}
			in.stuck("too many partitions at a loop head")
			return false
		}
		h := &hstate{in: in, fi: fi, l: l, d0: d.fork(), gl: map[string]*gen{}, candKey: map[*Expr]bool{}, nums: nums, types: tps, id: len(hs)}
		h.entries = append(h.entries, h.d0)
		hs = append(hs, h)
		if in.trace {
			fmt.Println(strings.Repeat(" ", len(hs)), "new header state", h.id, "in", fnName(d), "for", why)
		}
		return true
	}
	for _, d := range ds {
		place(d, nil)
	}
	in.quiet++
	saved := in.Stucks
	stable := false
	for round := 0; round < 60 && !stable; round++ {
		in.Rounds++
		in.Stucks = map[string]string{}
		stable = true
		for i := 0; i < len(hs); i++ {
			h := hs[i]
			ro := in.region(fi, l, l.head, []*D{h.build()})
			if in.Steps > in.Limit {
				break
			}
			bs := make([]*D, 0, len(ro.backs))
			for _, b := range ro.backs {
				bs = append(bs, b.d)
			}
			if len(bs) > in.MergeLimit {
				bs = in.mergeDs(fi, l.head, bs)
			}
			for _, b := range bs {
				if place(b, h) {
					stable = false
				}
			}
			if !stable {
				// start over with the changed header states
				if i < len(hs)-1 {
					continue
				}
			}
		}
		if in.Steps > in.Limit {
			break
		}
	}
	in.quiet--
	in.Stucks = saved
	var out regionOut
	if !stable {
		in.stuck("no fixpoint at a loop of " + ds[0].fr.fn.RelString(nil))
		return out
	}
	for _, h := range hs {
		ro := in.region(fi, l, l.head, []*D{h.build()})
		out.rets = append(out.rets, ro.rets...)
		out.exits = append(out.exits, ro.exits...)
		for _, b := range ro.backs {
			// the invariant must hold in the run which counts
			okAny := false
			for _, g := range hs {
				if ok, ch := g.absorb(b.d, g == h); ok {
					okAny = !ch
					break
				}
			}
			if !okAny {
				in.stuck("unstable loop of " + ds[0].fr.fn.RelString(nil))
				break
			}
		}
	}
	return out
}

var why string

func fnName(d *D) string { return d.fr.fn.RelString(nil) }

func liveAt(fi *fnInfo, b *ssa.BasicBlock) ([]int, map[int]types.Type) {
	tps := map[int]types.Type{}
	for v, n := range fi.num {
		tps[n] = v.Type()
	}
	var nums []int
	for x := range fi.live[b.Index] {
		nums = append(nums, x)
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nums = append(nums, fi.num[p])
	}
	sort.Ints(nums)
	return nums, tps
}

// fill looks for, or checks, the template of a content that grows by one element per iteration; true if it changed.
func (h *hstate) fill(m *matcher, g *gen, y Val) bool {
	if g.never {
		return false
	}
	in, d := h.in, m.d
	c := in.C
	fail := func() bool {
		g.never = true
		if g.tmpl == nil {
			return false
		}
		if in.trace {
			fmt.Println("  no template for", g.path, "as", clip(showVal(y), 300))
		}
		g.tmpl = nil
		g.remake(in)
		return true
	}
	equal := func(a, b *Expr) bool { return a == b || d.st.F.Decide(c.EqI(a, b)) == Yes }
	now := func(e *Expr) *Expr { return c.subst(e, m.sub) }
	if t := g.tmpl; t != nil {
		if i := now(t.ind.sym); equal(i, t.i0) && sameVal(y, g.entry[0]) {
			return false
		}
		if !m.own {
			return fail()
		}
		if sameVal(y, g.val) && now(t.ind.sym) == t.ind.sym {
			return false
		}
		step := int64(1)
		if t.down {
			step = -1
		}
		if now(t.ind.sym) != c.AddK(t.ind.sym, step) {
			return fail()
		}
		switch w := y.(type) {
		case *SeqV:
			if w.Base == g.stale && g.stale != nil {
				return false
			}
			gv := g.val.(*SeqV)
			u := w.Upd
			if w.Base != gv.Base || u == nil || u.Prev != gv.Upd || u.Idx == nil {
				return fail()
			}
			n := gv.Upd.N
			if t.down {
				n = t.ind.sym
			}
			if !equal(u.Idx, c.Add(t.to, n)) || !d.st.sameNow(u.V, in.substVal(t.V, map[*Expr]*Expr{t.v: n})) {
				return fail()
			}
		case *MapC:
			if w.Base == g.stale && g.stale != nil {
				return false
			}
			gv := g.val.(*MapC)
			u := w.Upd
			if w.Base != gv.Base || u == nil || u.Prev != gv.Upd || u.Del || u.All != nil {
				return fail()
			}
			k := c.App("keyat", gv.K, t.id, t.ind.sym)
			if u.Key != Val(k) || !d.st.sameNow(u.V, in.substVal(t.V, map[*Expr]*Expr{t.v: k})) {
				return fail()
			}
		}
		return false
	}
	if !m.own {
		return false
	}
	later := false // the key may still turn out to follow the iteration
	toEntry := map[*Expr]*Expr{}
	gens := map[*Expr]bool{}
	for _, x := range h.order {
		if x.sym == nil {
			continue
		}
		gens[x.sym] = true
		if e, ok := x.entry[0].(*Expr); ok {
			toEntry[x.sym] = e
		}
		if x.len != nil {
			gens[x.len] = true
			if e, ok := x.entry[0].(*MapC); ok {
				toEntry[x.len] = e.Len
			}
		}
	}
	// an arrival from a state before the generalization; the generalized state yields it again
	if q, ok := y.(*SeqV); ok && q.Base != g.sym {
		fresh := true
		for _, x := range h.order {
			if e := m.sub[x.sym]; x.sym != nil && x.kind == 'e' && (e == nil || !h.closed(e, gens, nil)) {
				fresh = false
			}
		}
		if fresh {
			return false
		}
	}
	for _, x := range h.order {
		if x.kind != 'e' || x.T != nil && !IsInt(x.T) {
			continue
		}
		down := now(x.sym) == c.AddK(x.sym, -1)
		if !down && now(x.sym) != c.AddK(x.sym, 1) {
			continue
		}
		i0, ok := x.entry[0].(*Expr)
		if !ok {
			continue
		}
		t := &tmpl{ind: x, i0: i0, down: down}
		switch w := y.(type) {
		case *SeqV:
			u := w.Upd
			if w.Base != g.sym || u == nil || u.Prev != nil || u.Idx == nil {
				if in.trace {
					fmt.Println("  no template for", g.path, "as", clip(showVal(y), 300))
				}
				return fail()
			}
			dist := c.Sub(u.Idx, x.sym)
			at0 := c.subst(dist, toEntry)
			if !equal(dist, at0) {
				if in.trace {
					fmt.Println("  no template for", g.path, "along", x.path, dist, at0)
				}
				continue
			}
			t.v = in.fresh("t", tInt)
			if down {
				t.to = at0
				t.V = in.substVal(u.V, map[*Expr]*Expr{x.sym: t.v})
			} else {
				t.to = c.Add(at0, i0)
				t.V = in.substVal(u.V, map[*Expr]*Expr{x.sym: c.Add(i0, t.v)})
			}
			t.V = h.unwritten(g, t, t.V)
		case *MapC:
			u := w.Upd
			if w.Base != g.sym || u == nil || u.Prev != nil || u.Del || u.All != nil {
				return fail()
			}
			if down {
				continue
			}
			k, ok := u.Key.(*Expr)
			if ok && h.noteCover(g, x, k, now) {
				g.never = true
				return true
			}
			if ok && (k.Op != OApp || k.Name != "keyat") {
				later = true
			}
			if !ok || k.Op != OApp || k.Name != "keyat" || k.Args[1] != x.sym || i0 != c.Zero || in.mapOf[k.Args[0]] == nil {
				continue
			}
			t.id = k.Args[0]
			t.v = in.fresh("t", w.K)
			t.V = in.substVal(u.V, map[*Expr]*Expr{k: t.v})
		}
		if !h.closed(t.V, gens, t.v) {
			if in.trace {
				fmt.Println("  template of", g.path, "depends on the iteration:", clip(showVal(t.V), 300))
			}
			continue
		}
		g.stale = g.sym
		g.tmpl = t
		g.remake(in)
		if in.trace {
			fmt.Println("  template of", g.path, ":", clip(showVal(t.V), 300))
		}
		return true
	}
	if later {
		return false
	}
	return fail()
}

// unwritten replaces what an iteration reads from positions of the sequence which are not written yet by what the entry
// has there.
func (h *hstate) unwritten(g *gen, t *tmpl, v Val) Val {
	in, c := h.in, h.in.C
	var elems []*Expr
	var find func(e *Expr)
	find = func(e *Expr) {
		if e == nil {
			return
		}
		if e.Op == OApp && e.Name == "elem" && e.Args[0] == g.sym {
			elems = append(elems, e)
		}
		for _, a := range e.Args {
			find(a)
		}
		for _, a := range c.lin(e).T {
			if a.A != e {
				find(a.A)
			}
		}
	}
	switch x := v.(type) {
	case *Expr:
		find(x)
	case *Ptr:
		find(x.O.Sym)
	default:
		return v
	}
	q, isSeq := g.entry[0].(*SeqV)
	m := map[*Expr]*Expr{}
	for _, e := range elems {
		st := h.d0.st.fork()
		at := c.Add(t.to, t.v)
		ok := c.Le(at, e.Args[1])
		st.F.Assume(c.Le(c.Zero, t.v))
		if t.down {
			ok = c.Le(e.Args[1], at)
			st.F.Assume(c.Le(t.v, t.i0))
		}
		if !isSeq || st.F.Decide(ok) != Yes {
			return v
		}
		var r Val
		d := h.d0.fork()
		d.st = st
		if in.attempt(d, func() { r = st.seqRead(q, e.Args[1]) }).kind != 'o' {
			return v
		}
		switch x := r.(type) {
		case *Expr:
			m[e] = x
		case *Ptr:
			if p, isP := v.(*Ptr); isP && p.O.Sym == e && len(p.Path) == 0 {
				return x
			}
			if x.O.Sym == nil || len(x.Path) > 0 {
				return v
			}
			m[e] = x.O.Sym
		}
	}
	return in.substVal(v, m)
}

// noteCover notes that iteration x enters key k.
func (h *hstate) noteCover(g, x *gen, k *Expr, now func(*Expr) *Expr) bool {
	if k.Op == OApp && k.Name == "keyat" || len(h.in.anyInts) == 0 {
		return false
	}
	c := h.in.C
	shift, found := int64(0), false
	var find func(e *Expr)
	find = func(e *Expr) {
		if found {
			return
		}
		if l := c.lin(e); e.Op == OLin || e == x.sym {
			if len(l.T) == 1 && l.T[0].A == x.sym && l.T[0].K == 1 {
				shift, found = l.C, true
				return
			}
		}
		for _, a := range e.Args {
			find(a)
		}
	}
	find(k)
	if !found {
		return false
	}
	for _, v := range h.covers {
		if v.g == g && v.ind == x && v.key == k {
			return false
		}
	}
	h.covers = append(h.covers, &cover{g, x, k, shift})
	return true
}

// closed tells whether a value refers to nothing that differs between iterations.
func (h *hstate) closed(v Val, gens map[*Expr]bool, own *Expr) bool {
	in := h.in
	bad := func(e *Expr) bool {
		if e == nil {
			return false
		}
		return mentions(e, func(x *Expr) bool {
			return x != own && (gens[x] || in.freshNo[x] > h.nsym0)
		})
	}
	var ok func(v Val) bool
	obj := func(o *Obj) bool {
		if o.Sym != nil {
			return !bad(o.Sym)
		}
		return o.id <= h.nobj0
	}
	ok = func(v Val) bool {
		switch x := v.(type) {
		case nil:
			return true
		case *Expr:
			return !bad(x)
		case *NilV:
			return true
		case *Ptr:
			for _, s := range x.Path {
				if bad(s.Idx) {
					return false
				}
			}
			return obj(x.O)
		case *StructV:
			for _, f := range x.F {
				if !ok(f) {
					return false
				}
			}
			return true
		case *SliceV:
			return ok(x.Arr) && !bad(x.Off) && !bad(x.Len) && !bad(x.Cap) && !bad(x.Nil)
		case *MapV:
			return obj(x.O) && !bad(x.Nil)
		case *IfaceV:
			return ok(x.V)
		case *FuncV:
			for _, f := range x.Bind {
				if !ok(f) {
					return false
				}
			}
			return true
		}
		return false
	}
	return ok(v)
}

// sameNow tells whether two values are equal in this state.
func (st *State) sameNow(a, b Val) bool {
	if sameVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			return false
		}
		if x.Op == OLin || y.Op == OLin || x.T != nil && IsInt(x.T) || y.T != nil && IsInt(y.T) {
			return st.F.Decide(st.in.C.EqI(x, y)) == Yes
		}
		return st.congruent(x, y, 0)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.sameNow(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || len(x.Path) > 0 || len(y.Path) > 0 {
			return false
		}
		return st.alias(x.O) == st.alias(y.O) || x.O.Sym != nil && y.O.Sym != nil && st.congruent(x.O.Sym, y.O.Sym, 0)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && st.sameNow(x.V, y.V)
	}
	return false
}

// congruent compares terms up to equal arguments.
func (st *State) congruent(x, y *Expr, depth int) bool {
	if st.F.find(x) == st.F.find(y) {
		return true
	}
	if x.Op == OLin || y.Op == OLin || x.T != nil && IsInt(x.T) && y.T != nil && IsInt(y.T) {
		return st.F.Decide(st.in.C.EqI(x, y)) == Yes
	}
	if x.Op != OApp || y.Op != OApp || x.Name != y.Name || len(x.Args) != len(y.Args) || depth > 4 {
		return false
	}
	for i := range x.Args {
		if !st.congruent(x.Args[i], y.Args[i], depth+1) {
			return false
		}
	}
	return true
}

// build makes the disjunct of the header state.
func (h *hstate) build() *D {
	h.nsym0, h.nobj0 = h.in.nsym, h.in.nobj
	d := h.d0.fork()
	st := d.st
	for _, n := range h.nums {
		if d.env[n] != nil {
			d.env[n] = h.rebuild(d.env[n], "e"+strconv.Itoa(n))
		}
	}
	for o, v := range h.d0.st.heap {
		p := "o" + strconv.Itoa(o.id)
		if h.touches(p) {
			st.heap[o] = h.rebuild(v, p)
		}
	}
	for _, g := range h.order { // objects which the entry state knew by name only
		if g.kind != 'n' {
			continue
		}
	}
	for o, v := range h.extra() {
		st.heap[o] = v
	}
	for _, a := range h.others {
		h.weaken(st, a)
	}
	for _, n := range h.nums {
		if it, ok := d.env[n].(*IterV); ok && it.M != nil {
			id := st.mapID(it.M)
			for _, p := range h.in.posTerms[id] {
				st.posOf(id, p.Args[1])
			}
		}
	}
	for _, t := range h.in.invTerms {
		st.invPerm(t.e.Args[0], t.e.Args[1], t.cond)
	}
	for _, c := range h.cands {
		if c.ok {
			st.F.Assume(c.c)
		}
	}
	return d
}

// weaken keeps only the facts which also hold at another arrival, facts about the unknowns of this loop aside.
func (h *hstate) weaken(st *State, a *D) {
	st.join(a.st.fork())
}

func (h *hstate) touches(p string) bool {
	for _, g := range h.order {
		if strings.HasPrefix(g.path, p) && (len(g.path) == len(p) || g.path[len(p)] == '.' || g.path[len(p)] == '[') {
			return true
		}
	}
	return false
}

// extra lists generalised contents of objects which are not in the entry's heap.
func (h *hstate) extra() map[*Obj]Val {
	r := map[*Obj]Val{}
	for _, g := range h.order {
		if !strings.HasPrefix(g.path, "o") {
			continue
		}
		id := g.path[1:]
		if i := strings.IndexAny(id, ".["); i >= 0 {
			id = id[:i]
		}
		n, _ := strconv.Atoi(id)
		for _, o := range h.in.symObjs {
			if o.id == n {
				if _, ok := h.d0.st.heap[o]; !ok {
					if _, done := r[o]; !done {
						r[o] = h.rebuild(h.in.matCache[o], "o"+strconv.Itoa(n))
					}
				}
			}
		}
	}
	return r
}

func (h *hstate) rebuild(v Val, p string) Val {
	if g, ok := h.gl[p]; ok {
		return g.val
	}
	if !h.touches(p) {
		return v
	}
	switch x := v.(type) {
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = h.rebuild(x.F[i], p+"."+strconv.Itoa(i))
		}
		return &StructV{T: x.T, F: f}
	case *Ptr:
		path := append([]Step{}, x.Path...)
		for i, s := range path {
			if s.Idx != nil {
				path[i].Idx = h.rebuild(s.Idx, p+".i"+strconv.Itoa(i)).(*Expr)
			}
		}
		return &Ptr{O: x.O, Path: path}
	case *SliceV:
		y := *x
		y.Arr = h.rebuild(x.Arr, p+".arr").(*Ptr)
		y.Off = h.rebuild(x.Off, p+".off").(*Expr)
		y.Len = h.rebuild(x.Len, p+".len").(*Expr)
		y.Cap = h.rebuild(x.Cap, p+".cap").(*Expr)
		if x.Nil != nil {
			y.Nil = h.rebuild(x.Nil, p+".nil").(*Expr)
		}
		return &y
	case *IfaceV:
		y := *x
		y.V = h.rebuild(x.V, p+".v")
		return &y
	case *FuncV:
		b := make([]Val, len(x.Bind))
		for i := range b {
			b[i] = h.rebuild(x.Bind[i], p+".b"+strconv.Itoa(i))
		}
		return &FuncV{Fn: x.Fn, Bind: b}
	case TupleV:
		t := make(TupleV, len(x))
		for i := range t {
			if x[i] != nil {
				t[i] = h.rebuild(x[i], p+"."+strconv.Itoa(i))
			}
		}
		return t
	case *RV:
		y := *x
		y.V = h.rebuild(x.V, p+".v")
		return &y
	}
	return v
}

// matcher compares an arrival with the entry state of a header state.
type matcher struct {
	h       *hstate
	d       *D
	sub     map[*Expr]*Expr
	objs    map[*Obj]*Obj // entry object -> arrival object
	inv     map[*Obj]*Obj
	work    []*Obj
	need    []*gen
	facts   []*Expr
	invalid []*gen
	filled  []*gen
	fillv   []Val
	own     bool
}

// absorb joins an arrival into the header state; ok is false if it belongs to another partition.
func (h *hstate) absorb(d *D, own bool) (ok, changed bool) {
	m := &matcher{h: h, d: d, sub: map[*Expr]*Expr{}, objs: map[*Obj]*Obj{}, inv: map[*Obj]*Obj{}, own: own}
	r := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case incompatible:
					why = x.why
					ok = false
				case split, kill, stuck:
					why = fmt.Sprint(e)
					ok = false
				default:
					panic(e)
				}
			}
		}()
		m.all()
		return true
	}()
	if !r {
		return false, false
	}
	for _, g := range m.need {
		if _, dup := h.gl[g.path]; dup {
			continue
		}
		h.gl[g.path] = g
		h.order = append(h.order, g)
		changed = true
		if h.in.trace {
			fmt.Printf("  gen %s %c := %s  (was %s)\n", g.path, g.kind, showVal(g.val), showVal(g.entry[0]))
		}
	}
	for i, g := range m.filled {
		if h.gl[g.path] == g && h.fill(m, g, m.fillv[i]) {
			changed = true
		}
	}
	for _, g := range m.invalid {
		if g.valid {
			g.valid = false
			g.remake(h.in)
			changed = true
		}
	}
	if changed {
		h.newCands()
		if !own {
			h.addEntry(d)
		}
		// the candidates are tested again when the fixpoint iteration comes back
		h.filterEntries()
		return true, true
	}
	if !own {
		known := false
		for _, e := range h.entries {
			if e == d {
				known = true
			}
		}
		if !known {
			if h.addEntry(d) {
				changed = true
			}
		}
	}
	for _, c := range h.cands {
		if !c.ok {
			continue
		}
		if !c.holds(h.in, d.st, m) {
			c.ok = false
			changed = true
			if h.in.trace {
				fmt.Println("  drop", c.c, "as", h.in.C.subst(c.c, m.sub))
				if h.in.dumpFacts {
					fmt.Print(d.st.F.dump())
				}
			}
		}
	}
	return true, changed
}

// addEntry notes an arrival from outside this header state: its facts weaken those of the header.
func (h *hstate) addEntry(d *D) bool {
	probe := h.d0.st.fork()
	for _, a := range h.others {
		probe.join(a.st.fork())
	}
	before := factCount(probe.F)
	probe.join(d.st.fork())
	if factCount(probe.F) == before {
		return false
	}
	h.others = append(h.others, d.fork())
	return true
}

func factCount(f *Facts) int {
	n := len(f.lins) + len(f.truth) + len(f.eq) + len(f.diseq) + len(f.clauses)
	for e := range f.sets {
		s := f.sets[e]
		n += 300 - s.count()
	}
	return n
}

// filterEntries drops the candidates which fail at an arrival from outside.
func (h *hstate) filterEntries() {
	for _, e := range append([]*D{h.d0}, h.others...) {
		m := &matcher{h: h, d: e, sub: map[*Expr]*Expr{}, objs: map[*Obj]*Obj{}, inv: map[*Obj]*Obj{}}
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					ok = false
				}
			}()
			m.all()
			return true
		}()
		for _, c := range h.cands {
			if c.ok && (!ok || !c.holds(h.in, e.st, m)) {
				c.ok = false
			}
		}
	}
}

func (m *matcher) all() {
	h := m.h
	for _, n := range h.nums {
		a, b := h.d0.env[n], m.d.env[n]
		if a == nil || b == nil {
			if a == nil && b == nil {
				continue
			}
			panic(incompatible{"undefined value"})
		}
		m.walk("e"+strconv.Itoa(n), a, b, h.types[n])
	}
	if len(h.d0.defers) != len(m.d.defers) {
		panic(incompatible{"defers"})
	}
	m.drain()
	// everything which existed at the entry is compared
	ids := make([]*Obj, 0, len(h.d0.st.heap))
	for o := range h.d0.st.heap {
		ids = append(ids, o)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	for _, o := range ids {
		if _, done := m.objs[o]; !done {
			if _, used := m.inv[o]; used {
				panic(incompatible{"object " + o.name() + " changes its role"})
			}
			if _, still := m.d.st.heap[o]; !still {
				if o.Sym == nil {
					continue // allocated on this side only, and unreachable on the other
				}
			}
			m.pair(o, o)
		}
	}
	// named objects the arrival has changed
	var extra []*Obj
	for o := range m.d.st.heap {
		if o.Sym != nil {
			if _, ok := m.objs[o]; !ok {
				if _, used := m.inv[o]; !used {
					extra = append(extra, o)
				}
			}
		}
	}
	sort.Slice(extra, func(i, j int) bool { return extra[i].id < extra[j].id })
	for _, o := range extra {
		m.pair(o, o)
	}
	m.drain()
}

// drain compares the contents of the objects paired so far.
func (m *matcher) drain() {
	h := m.h
	for len(m.work) > 0 {
		o := m.work[0]
		m.work = m.work[1:]
		p := m.objs[o]
		a, okA := h.d0.st.heap[o]
		b, okB := m.d.st.heap[p]
		if !okA && !okB {
			continue
		}
		if !okA {
			a = h.in.matCache[o]
			if a == nil {
				a = h.d0.st.materialise(o)
			}
		}
		if !okB {
			b = h.in.matCache[p]
			if b == nil {
				b = m.d.st.materialise(p)
			}
		}
		m.walk("o"+strconv.Itoa(o.id), a, b, o.T)
	}
}

func (m *matcher) pair(a, b *Obj) {
	if x, ok := m.objs[a]; ok {
		if x != b {
			panic(incompatible{"object " + a.name() + " stands for two"})
		}
		return
	}
	if x, ok := m.inv[b]; ok && x != a {
		panic(incompatible{"two objects become " + b.name()})
	}
	m.objs[a] = b
	m.inv[b] = a
	m.work = append(m.work, a)
}

func (m *matcher) newGen(path string, kind byte, T types.Type, entry Val) *gen {
	g := &gen{path: path, kind: kind, T: T, entry: []Val{entry}, valid: true}
	for _, x := range m.need {
		if x.path == path {
			return x
		}
	}
	m.need = append(m.need, g)
	return g
}

func (g *gen) remake(in *Interp) {
	switch g.kind {
	case 'e':
		g.sym = in.fresh("g", g.T)
		g.val = g.sym
	case 'p':
		pt := elemOf(g.T)
		g.sym = in.fresh("g", g.T)
		g.val = &Ptr{O: in.symObj(g.sym, pt, 'v', g.valid, g.valid || g.nn)}
	case 's':
		old := g.entry[0].(*SeqV)
		if t := g.tmpl; t != nil {
			u := &SeqUpd{Var: t.v, V: t.V, To: t.to, N: in.C.Sub(t.ind.sym, t.i0)}
			if t.down {
				c := in.C
				k := in.fresh("t", tInt)
				next := c.AddK(t.ind.sym, 1) // the lowest one written
				u = &SeqUpd{Var: k, V: in.substVal(t.V, map[*Expr]*Expr{t.v: c.Add(k, next)}), To: c.Add(t.to, next), N: c.Sub(t.i0, t.ind.sym)}
			}
			q := *old
			g.val = q.with(u)
			return
		}
		g.sym = in.fresh("g", g.T)
		g.val = &SeqV{Base: g.sym, Elem: old.Elem, N: old.N, Valid: g.valid}
	case 'm':
		old := g.entry[0].(*MapC)
		if t := g.tmpl; t != nil {
			q := (*old).with(&MapUpd{All: in.mapOf[t.id], Var: t.v, V: t.V, Cond: t.ind.sym})
			q.Len = g.len
			if old.Base == nil && old.Upd == nil {
				q.Len = t.ind.sym
			}
			g.val = q
			return
		}
		g.sym = in.fresh("g", g.T)
		g.len = in.C.App("len", tInt, g.sym)
		g.val = &MapC{Base: g.sym, K: old.K, V: old.V, Len: g.len, Valid: g.valid}
	case 'i':
		g.sym = in.fresh("g", g.T)
		g.val = in.symVal(g.sym, g.T, false)
	}
}

func constBool(e *Expr) (bool, bool) {
	b, ok := e.C.(bool)
	return b, ok && e.Op == OConst
}

// walk compares the value a of the entry with the value b of an arrival.
func (m *matcher) walk(path string, a, b Val, T types.Type) {
	in := m.h.in
	c := in.C
	if g, ok := m.h.gl[path]; ok {
		m.bind(g, b)
		return
	}
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			panic(incompatible{"kind of " + path})
		}
		if x == y {
			return
		}
		if T == nil {
			T = x.T
			if x.Op == OConst && y.T != nil {
				T = y.T
			}
		}
		if isBasicBoolT(T) {
			p, ok1 := constBool(x)
			q, ok2 := constBool(y)
			if !ok1 {
				if t := m.h.d0.st.F.Decide(x); t != Unknown {
					p, ok1 = t == Yes, true
				}
			}
			if !ok2 {
				if t := m.d.st.F.Decide(y); t != Unknown {
					q, ok2 = t == Yes, true
				}
			}
			if ok1 && ok2 && p == q {
				return
			}
			if (ok1 || ok2) && !m.h.coarse {
				panic(incompatible{"truth of " + path})
			}
		} else if IsInt(T) {
			if m.d.st.F.Decide(c.EqI(x, y)) == Yes {
				return
			}
		} else if m.d.st.F.find(x) == m.d.st.F.find(y) {
			return
		}
		if _, isF := under(T).(*types.Signature); isF {
			panic(incompatible{"function " + path})
		}
		if _, isI := under(T).(*types.Interface); isI {
			g := m.newGen(path, 'i', T, a)
			g.remake(in)
			return
		}
		g := m.newGen(path, 'e', T, a)
		g.remake(in)
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || len(x.Path) != len(y.Path) {
			panic(incompatible{"pointer " + path})
		}
		for i := range x.Path {
			if (x.Path[i].Idx == nil) != (y.Path[i].Idx == nil) || x.Path[i].Field != y.Path[i].Field {
				panic(incompatible{"pointer " + path})
			}
		}
		if x.O != y.O {
			if x.O.Fresh && y.O.Fresh {
				if !types.Identical(x.O.T, y.O.T) || x.O.Kind != y.O.Kind {
					panic(incompatible{"object " + path})
				}
				// an object of the entry which both states have is not another one
				if _, both := m.d.st.heap[x.O]; both && m.d.st.heap[x.O] != nil && m.reach(x.O) {
					m.summary(path, x, y, T)
					return
				}
				m.pair(x.O, y.O)
			} else {
				m.summary(path, x, y, T)
				return
			}
		} else {
			m.pair(x.O, y.O)
		}
		for i := range x.Path {
			if x.Path[i].Idx != nil {
				m.walk(path+".i"+strconv.Itoa(i), x.Path[i].Idx, y.Path[i].Idx, tInt)
			}
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			panic(incompatible{"struct " + path})
		}
		st, _ := under(x.T).(*types.Struct)
		for i := range x.F {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			m.walk(path+"."+strconv.Itoa(i), x.F[i], y.F[i], ft)
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			panic(incompatible{"slice " + path})
		}
		m.walk(path+".arr", x.Arr, y.Arr, nil)
		m.walk(path+".off", x.Off, y.Off, tInt)
		m.walk(path+".len", x.Len, y.Len, tInt)
		m.walk(path+".cap", x.Cap, y.Cap, tInt)
		nx, ny := x.Nil, y.Nil
		if nx == nil {
			nx = c.False
		}
		if ny == nil {
			ny = c.False
		}
		if nx != ny {
			m.walk(path+".nil", nx, ny, tBool)
		}
	case *NilV:
		if _, ok := b.(*NilV); !ok {
			if e, isE := b.(*Expr); isE && m.d.st.F.Decide(m.d.st.isNil(e)) == Yes {
				return
			}
			panic(incompatible{"nil " + path})
		}
	case *MapV:
		y, ok := b.(*MapV)
		if !ok {
			panic(incompatible{"map " + path})
		}
		m.pair(x.O, y.O)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || !types.Identical(x.T, y.T) {
			panic(incompatible{"dynamic type of " + path})
		}
		m.walk(path+".v", x.V, y.V, x.T)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			panic(incompatible{"function " + path})
		}
		for i := range x.Bind {
			m.walk(path+".b"+strconv.Itoa(i), x.Bind[i], y.Bind[i], nil)
		}
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			panic(incompatible{"tuple " + path})
		}
		tt, _ := T.(*types.Tuple)
		for i := range x {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			if x[i] == nil || y[i] == nil {
				continue
			}
			m.walk(path+"."+strconv.Itoa(i), x[i], y[i], et)
		}
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok {
			panic(incompatible{"content " + path})
		}
		m.pairSeq(x)
		if sameSeq(x, y) {
			return
		}
		g := m.newGen(path, 's', x.Elem, a)
		g.valid = m.validSeq(m.h.d0.st, x) && m.validSeq(m.d.st, y)
		g.T = tString
		g.remake(in)
	case *MapC:
		y, ok := b.(*MapC)
		if !ok {
			panic(incompatible{"content " + path})
		}
		if sameVal(x, y) {
			return
		}
		g := m.newGen(path, 'm', types.NewMap(x.K, x.V), a)
		g.valid = m.validMap(m.h.d0.st, x) && m.validMap(m.d.st, y)
		g.remake(in)
	case *IterV:
		y, ok := b.(*IterV)
		if !ok || x.O != y.O || !sameKeys(x, y) {
			panic(incompatible{"iterator " + path})
		}
		m.pair(x.O, y.O)
	case *RV:
		y, ok := b.(*RV)
		if !ok || x.Term != y.Term {
			panic(incompatible{"reflect value " + path})
		}
		if x.V != nil && y.V != nil {
			m.walk(path+".v", x.V, y.V, x.T)
		}
	case *RT:
		if !sameVal(a, b) {
			panic(incompatible{"reflect type " + path})
		}
	default:
		panic(stuck{fmt.Sprintf("loop value %T", a)})
	}
}

func isBasicBoolT(t types.Type) bool { return t != nil && isBasic(t, types.IsBoolean) }

func (m *matcher) pairSeq(q *SeqV) {}

// reach tells whether an object of the entry is referenced by another object of the arrival.
func (m *matcher) reach(o *Obj) bool {
	for x, v := range m.d.st.heap {
		if x != o && refersTo(v, o, 0) {
			return true
		}
	}
	for _, n := range m.h.nums {
		if v := m.d.env[n]; v != nil && refersTo(v, o, 0) {
			return true
		}
	}
	return false
}

func refersTo(v Val, o *Obj, depth int) bool {
	if depth > 50 {
		return true
	}
	switch x := v.(type) {
	case *Ptr:
		return x.O == o
	case *StructV:
		for _, f := range x.F {
			if refersTo(f, o, depth+1) {
				return true
			}
		}
	case *SliceV:
		return x.Arr.O == o
	case *MapV:
		return x.O == o
	case *IfaceV:
		return refersTo(x.V, o, depth+1)
	case *FuncV:
		for _, f := range x.Bind {
			if refersTo(f, o, depth+1) {
				return true
			}
		}
	case TupleV:
		for _, f := range x {
			if f != nil && refersTo(f, o, depth+1) {
				return true
			}
		}
	case *SeqV:
		for u := x.Upd; u != nil; u = u.Prev {
			if u.V != nil && refersTo(u.V, o, depth+1) || u.Src != nil && refersTo(u.Src, o, depth+1) {
				return true
			}
		}
	case *MapC:
		for u := x.Upd; u != nil; u = u.Prev {
			if u.V != nil && refersTo(u.V, o, depth+1) {
				return true
			}
		}
	case *RV:
		return x.V != nil && refersTo(x.V, o, depth+1)
	}
	return false
}

// summary generalises a pointer to one that is known by name only.
func (m *matcher) summary(path string, x, y *Ptr, T types.Type) {
	in := m.h.in
	if len(x.Path) > 0 || T == nil {
		panic(incompatible{"pointer " + path + " moves"})
	}
	if _, ok := under(T).(*types.Pointer); !ok {
		panic(incompatible{"pointer " + path + " moves"})
	}
	va, vb := in.validPtr(m.h.d0.st, x, 0), in.validPtr(m.d.st, y, 0)
	if in.R == nil || !in.R.isPtrV(T) || !va || !vb {
		panic(incompatible{"pointer " + path + " moves"})
	}
	g := m.newGen(path, 'p', T, x)
	g.remake(in)
}

// validPtr tells whether a pointer refers to an initialised value of the library.
func (in *Interp) validPtr(st *State, p *Ptr, depth int) bool {
	if in.R == nil || len(p.Path) > 0 || !in.R.isV(p.O.T) {
		return false
	}
	v, ok := st.heap[p.O]
	if !ok {
		return p.O.Sym != nil && p.O.Valid && p.O.NonNil
	}
	if p.O.Sym != nil && p.O.Valid {
		return true
	}
	ty, ok := leaf(v, in.R.Type).(*Expr)
	if !ok || depth > 4 {
		return false
	}
	return st.F.Decide(in.C.EqI(ty, in.C.Zero)) == No
}

func (m *matcher) validVal(st *State, v Val, T types.Type) bool {
	in := m.h.in
	if in.R == nil || !in.R.holdsV(T) {
		return true
	}
	switch x := v.(type) {
	case *Ptr:
		return in.validPtr(st, x, 0)
	case *StructV:
		s, ok := under(x.T).(*types.Struct)
		if !ok {
			return false
		}
		for i, f := range x.F {
			if !m.validVal(st, f, s.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *matcher) validSeq(st *State, q *SeqV) bool {
	if q.Elem == nil || m.h.in.R == nil || !m.h.in.R.holdsV(q.Elem) {
		return true
	}
	for u := q.Upd; u != nil; u = u.Prev {
		switch {
		case u.Perm != nil:
		case u.Src != nil:
			if !m.validSeq(st, u.Src) {
				return false
			}
		default:
			if !m.validVal(st, u.V, q.Elem) {
				return false
			}
		}
	}
	// zero values at positions which are not written do not count as elements of the slice built by appending
	return q.Base == nil || q.Valid
}

func (m *matcher) validMap(st *State, q *MapC) bool {
	for u := q.Upd; u != nil; u = u.Prev {
		if u.Del {
			continue
		}
		if !m.validVal(st, u.V, q.V) {
			return false
		}
	}
	return q.Base == nil || q.Valid
}

// bind notes the value a generalised location has at an arrival.
func (m *matcher) bind(g *gen, b Val) {
	in := m.h.in
	switch g.kind {
	case 'e':
		y, ok := b.(*Expr)
		if !ok {
			panic(incompatible{"kind of " + g.path})
		}
		m.sub[g.sym] = y
	case 'i':
		if y, ok := b.(*Expr); ok {
			m.sub[g.sym] = y
			return
		}
		panic(incompatible{"interface " + g.path})
	case 'p':
		y, ok := b.(*Ptr)
		if !ok {
			panic(incompatible{"pointer " + g.path})
		}
		if !in.validPtr(m.d.st, y, 0) {
			panic(incompatible{"pointer " + g.path + " may be invalid"})
		}
		if y.O.Sym != nil {
			m.sub[g.sym] = y.O.Sym
		}
	case 's':
		y, ok := b.(*SeqV)
		if !ok {
			panic(incompatible{"content " + g.path})
		}
		if g.tmpl == nil && y.Base == g.sym && y.Upd == nil {
			return
		}
		m.filled, m.fillv = append(m.filled, g), append(m.fillv, y)
		if g.tmpl != nil {
			return
		}
		if g.valid && !m.validSeq(m.d.st, y) {
			m.invalid = append(m.invalid, g)
		}
	case 'm':
		y, ok := b.(*MapC)
		if !ok {
			panic(incompatible{"content " + g.path})
		}
		m.sub[g.len] = y.Len
		m.filled, m.fillv = append(m.filled, g), append(m.fillv, y)
		if g.tmpl != nil {
			return
		}
		if g.valid && !m.validMap(m.d.st, y) {
			m.invalid = append(m.invalid, g)
		}
	}
}

// newCands proposes facts about the generalised integers.
// bounds gives what the header's test compares the changing integers with.
func (h *hstate) bounds() []*Expr {
	in, c := h.in, h.in.C
	test := exitTest(h.l)
	if test == nil {
		return nil
	}
	gens := map[*Expr]bool{}
	for _, g := range h.order {
		if g.sym != nil {
			gens[g.sym] = true
		}
		if g.len != nil {
			gens[g.len] = true
		}
	}
	nsym, nobj := h.nsym0, h.nobj0
	d := h.build()
	h.nsym0, h.nobj0 = nsym, nobj
	in.quiet++
	saved := in.Stucks
	in.Stucks = map[string]string{}
	defer func() { in.quiet--; in.Stucks = saved }()
	for _, ins := range h.l.head.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if b, ok := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		case *ssa.If:
			continue
		}
		if r := in.attempt(d, func() { d.exec(ins) }); r.kind != 'o' {
			return nil
		}
	}
	var out []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		switch e.Op {
		case ONot, OBAnd, OBOr:
			for _, a := range e.Args {
				walk(a)
			}
		case OLe, OEq0:
			l := c.lin(e.Args[0])
			for _, t := range l.T {
				if !gens[t.A] || t.K != 1 && t.K != -1 {
					continue
				}
				a := t.A
				if t.K == 1 {
					a = c.Sub(a, e.Args[0])
				} else {
					a = c.Add(a, e.Args[0])
				}
				if h.closed(a, gens, nil) {
					out = append(out, a, c.AddK(a, t.K)) // also where the test fails for the first time
				}
			}
		}
	}
	if e, ok := d.val(test.Cond).(*Expr); ok {
		walk(e)
	}
	return out
}

func (h *hstate) newCands() {
	in := h.in
	c := in.C
	for _, n := range h.nums {
		if it, ok := h.d0.env[n].(*IterV); ok && it.M != nil {
			for _, w := range in.keyWatches {
				if id := h.d0.st.mapID(it.M); in.mapOf[id] != nil {
					h.d0.st.posOf(id, h.d0.st.F.find(w.q))
				}
			}
		}
	}
	add := func(e *Expr) {
		if e.Op == OConst || h.candKey[e] {
			return
		}
		h.candKey[e] = true
		h.cands = append(h.cands, &cand{c: e, ok: true})
	}
	type iv struct{ sym, entry *Expr }
	var ints []iv
	for _, g := range h.order {
		switch g.kind {
		case 'e':
			if g.T != nil && IsInt(g.T) {
				ints = append(ints, iv{g.sym, g.entry[0].(*Expr)})
			}
			if g.T != nil && isBasic(g.T, types.IsString) {
				ints = append(ints, iv{c.Len(g.sym), c.Len(g.entry[0].(*Expr))})
			}
		case 'm':
			ints = append(ints, iv{g.len, g.entry[0].(*MapC).Len})
		}
	}
	if in.cs != nil {
		// what is zero while there is nothing
		for _, z := range ints {
			if n, ok := z.entry.Int64(); !ok || n != 0 {
				continue
			}
			none := c.EqI(z.sym, c.Zero)
			for _, x := range ints {
				if x.sym != z.sym {
					add(c.Or(none, c.Le(x.sym, z.sym)))
					add(c.Or(none, c.Lt(x.sym, z.sym)))
				}
			}
		}
	}
	for _, w := range in.keyWatches {
		for _, e := range []*Expr{w.p, c.Not(w.p)} {
			if e.Op != OConst && !h.candKey[e] {
				h.candKey[e] = true
				h.cands = append(h.cands, &cand{c: e, ok: true, kw: w})
			}
		}
	}
	// terms which do not change
	var terms []*Expr
	seen := map[*Expr]bool{}
	addTerm := func(e *Expr) {
		if e == nil || seen[e] || e.Op == OConst {
			return
		}
		seen[e] = true
		terms = append(terms, e)
	}
	for _, t := range in.invTerms {
		addTerm(t.e)
	}
	for _, t := range h.bounds() {
		addTerm(t)
	}
	var collect func(v Val, path string, depth int)
	collect = func(v Val, path string, depth int) {
		if _, isG := h.gl[path]; isG || depth > 3 {
			return
		}
		switch x := v.(type) {
		case *Expr:
			if x.T != nil && (IsInt(x.T) || x.Op == OLin) {
				addTerm(x)
			} else if isStr(x) {
				addTerm(c.Len(x))
			}
		case *SliceV:
			if _, isG := h.gl[path+".len"]; !isG {
				addTerm(x.Len)
			}
			if _, isG := h.gl[path+".cap"]; !isG {
				addTerm(x.Cap)
			}
		case *IterV:
			if x.M != nil {
				addTerm(x.M.Len)
				for _, p := range in.posTerms[h.d0.st.mapID(x.M)] {
					addTerm(p)
				}
			} else if x.Str != nil {
				addTerm(c.Len(x.Str))
			}
		case *StructV:
			for i, f := range x.F {
				collect(f, path+"."+strconv.Itoa(i), depth+1)
			}
		case TupleV:
			for i, f := range x {
				collect(f, path+"."+strconv.Itoa(i), depth+1)
			}
		case *IfaceV:
			collect(x.V, path+".v", depth+1)
		case *Ptr:
			if len(x.Path) == 0 {
				if w, ok := h.d0.st.heap[x.O]; ok {
					collect(w, "o"+strconv.Itoa(x.O.id), depth+1)
				}
			}
		case *MapV:
			if w, ok := h.d0.st.heap[x.O].(*MapC); ok {
				if _, isG := h.gl["o"+strconv.Itoa(x.O.id)]; !isG {
					addTerm(w.Len)
				}
			}
		}
	}
	for _, n := range h.nums {
		if v := h.d0.env[n]; v != nil {
			collect(v, "e"+strconv.Itoa(n), 0)
		}
	}
	if len(terms) > 14 {
		terms = terms[:14]
	}
	var qs []*Expr
	for q := range in.anyInts {
		qs = append(qs, q)
	}
	sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
	for i, x := range ints {
		add(c.Le(x.entry, x.sym))
		add(c.Le(x.sym, x.entry))
		for _, t := range terms {
			add(c.Le(x.sym, t))
			add(c.Le(t, x.sym))
			if t.Op == OApp && (t.Name == "posof" || t.Name == "invperm") {
				add(c.Lt(t, x.sym)) // passed already
				add(c.Lt(x.sym, t))
				for _, w := range in.keyWatches {
					if k := keyOfPos(t); k == w.q || h.d0.st.F.find(k) == h.d0.st.F.find(w.q) {
						for _, e := range []*Expr{c.Or(c.Le(x.sym, t), w.p), c.Or(c.Lt(x.sym, t), w.p)} {
							if e.Op != OConst && !h.candKey[e] {
								h.candKey[e] = true
								h.cands = append(h.cands, &cand{c: e, ok: true, kw: w})
							}
						}
					}
				}
			}
			if n, ok := x.entry.Int64(); ok && n < 0 {
				add(c.Lt(x.sym, t))
			}
		}
		for _, t := range qs {
			add(c.Lt(x.sym, t))
			add(c.Le(x.sym, t))
			add(c.Le(t, x.sym))
		}
		for _, w := range in.watches {
			if e := c.Or(c.Or(c.Lt(x.entry, w.q), c.Le(w.q, x.sym)), w.p); e.Op != OConst && !h.candKey[e] {
				h.candKey[e] = true
				h.cands = append(h.cands, &cand{c: e, ok: true, sym: x.sym, entry: x.entry, w: w, down: true})
			}
			for _, lo := range []*Expr{w.lo, x.entry} {
				e := c.Or(c.Or(c.Lt(w.q, lo), c.Le(x.sym, w.q)), w.p)
				if e.Op != OConst && !h.candKey[e] {
					h.candKey[e] = true
					h.cands = append(h.cands, &cand{c: e, ok: true, sym: x.sym, entry: lo, w: w})
				}
			}
		}
		for _, y := range ints[:i] {
			add(c.EqI(c.Sub(x.sym, y.sym), c.Sub(x.entry, y.entry)))
			add(c.EqI(c.Add(x.sym, y.sym), c.Add(x.entry, y.entry)))
			add(c.Le(x.sym, y.sym))
			add(c.Le(y.sym, x.sym))
		}
	}
	for _, v := range h.covers {
		for _, q := range qs {
			lo, _ := v.ind.entry[0].(*Expr)
			for _, lo := range []*Expr{nil, lo} {
				e := c.Or(c.Le(c.AddK(v.ind.sym, v.shift), q), c.App("has", tBool, v.g.sym, h.d0.st.F.find(v.at(c, q))))
				if lo != nil {
					e = c.Or(c.Lt(q, c.AddK(lo, v.shift)), e)
				}
				if e.Op != OConst && !h.candKey[e] {
					h.candKey[e] = true
					cd := &cand{c: e, ok: true, cov: v, q: q}
					if lo != nil {
						cd.entry = c.AddK(lo, v.shift)
					}
					h.cands = append(h.cands, cd)
				}
			}
		}
	}
	// what the entry knows about the interfaces
	for _, g := range h.order {
		if g.kind == 'i' {
			switch h.d0.st.F.Decide(h.d0.st.isNil(g.entry[0])) {
			case No:
				add(c.Not(c.App("isnil", tBool, g.sym)))
			case Yes:
				add(c.App("isnil", tBool, g.sym))
			}
		}
	}
}

// keyOfPos is the key whose position the term tells.
func keyOfPos(t *Expr) *Expr {
	for t.Op == OApp && t.Name == "invperm" {
		t = t.Args[1]
	}
	if t.Op == OApp && t.Name == "posof" {
		return t.Args[1]
	}
	return t
}
