package ai

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	mbits "math/bits"
	"os"
	"sort"
	"strconv"
	"strings"

	"go/types"
)

// Tri is a three-valued truth value.
type Tri int8

// Truth values.
const (
	No      Tri = -1
	Unknown Tri = 0
	Yes     Tri = 1
)

// Set is a set of small values 0..255.
type Set [4]uint64

func (s *Set) has(i int64) bool { return i >= 0 && i < 256 && s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s *Set) add(i int64)      { s[i>>6] |= 1 << (uint(i) & 63) }
func (s *Set) count() int {
	n := 0
	for _, w := range s {
		n += mbits.OnesCount64(w)
	}
	return n
}
func (s *Set) values() []int64 {
	out := make([]int64, 0, s.count())
	for i, w := range s {
		for w != 0 {
			k := mbits.TrailingZeros64(w)
			out = append(out, int64(i*64+k))
			w &= w - 1
		}
	}
	return out
}

// ends gives the least and the greatest value.
func (s *Set) ends() (lo, hi int64, ok bool) {
	for i, w := range s {
		if w != 0 {
			if !ok {
				lo, ok = int64(i*64+mbits.TrailingZeros64(w)), true
			}
			hi = int64(i*64 + 63 - mbits.LeadingZeros64(w))
		}
	}
	return
}

// Facts is a conjunction of what is known about the unknowns.
type Facts struct {
	c       *Ctx
	lins    []*Lin // each <= 0
	linKey  map[string]bool
	truth   map[*Expr]bool
	sets    map[*Expr]Set
	eq      map[*Expr]*Expr
	diseq   []*Lin
	clauses []*Expr
	bad     bool
	// undo log since the last mark
	jr         []undo
	nl, nd, nc int
	wraps      []*Expr // conversions not yet known to keep the value
	wraps0     []*Expr
	bad0       bool
	inUnwrap   bool
	memo       map[*Expr]Tri // what Decide answered since the last change; shared by copies
	memo0      map[*Expr]Tri
}

// changed forgets the answers after a change.
func (f *Facts) changed() { f.memo = nil }

type undo struct {
	kind byte
	key  interface{}
	old  interface{}
}

// mark starts a transaction.
func (f *Facts) mark() {
	f.jr = f.jr[:0]
	f.nl, f.nd, f.nc, f.bad0 = len(f.lins), len(f.diseq), len(f.clauses), f.bad
	f.wraps0 = f.wraps
	f.memo0 = f.memo
}

// rollback undoes everything since the mark.
func (f *Facts) rollback() {
	for i := len(f.jr) - 1; i >= 0; i-- {
		u := f.jr[i]
		switch u.kind {
		case 'k':
			delete(f.linKey, u.key.(string))
		case 't':
			if u.old == nil {
				delete(f.truth, u.key.(*Expr))
			} else {
				f.truth[u.key.(*Expr)] = u.old.(bool)
			}
		case 's':
			if u.old == nil {
				delete(f.sets, u.key.(*Expr))
			} else {
				f.sets[u.key.(*Expr)] = u.old.(Set)
			}
		case 'e':
			if u.old == nil {
				delete(f.eq, u.key.(*Expr))
			} else {
				f.eq[u.key.(*Expr)] = u.old.(*Expr)
			}
		}
	}
	if len(f.jr) > 0 || len(f.lins) != f.nl || len(f.diseq) != f.nd || len(f.clauses) != f.nc || f.bad != f.bad0 {
		f.memo = f.memo0
	}
	f.jr = f.jr[:0]
	f.wraps = f.wraps0
	f.lins, f.diseq, f.clauses, f.bad = f.lins[:f.nl:f.nl], f.diseq[:f.nd:f.nd], f.clauses[:f.nc:f.nc], f.bad0
}

func (f *Facts) setTruth(e *Expr, b bool) {
	f.changed()
	var old interface{}
	if o, ok := f.truth[e]; ok {
		old = o
	}
	f.jr = append(f.jr, undo{'t', e, old})
	f.truth[e] = b
}

func (f *Facts) setSet(e *Expr, s Set) {
	f.changed()
	var old interface{}
	if o, ok := f.sets[e]; ok {
		old = o
	}
	f.jr = append(f.jr, undo{'s', e, old})
	f.sets[e] = s
}

func (f *Facts) setEq(e, r *Expr) {
	f.changed()
	var old interface{}
	if o, ok := f.eq[e]; ok {
		old = o
	}
	f.jr = append(f.jr, undo{'e', e, old})
	f.eq[e] = r
}

func newFacts(c *Ctx) *Facts {
	return &Facts{c: c, linKey: map[string]bool{}, truth: map[*Expr]bool{}, sets: map[*Expr]Set{}, eq: map[*Expr]*Expr{}}
}

func (f *Facts) copy() *Facts {
	if f.memo == nil {
		f.memo = map[*Expr]Tri{}
	}
	g := &Facts{c: f.c, memo: f.memo, lins: f.lins[:len(f.lins):len(f.lins)], diseq: f.diseq[:len(f.diseq):len(f.diseq)],
		clauses: f.clauses[:len(f.clauses):len(f.clauses)], bad: f.bad, wraps: f.wraps[:len(f.wraps):len(f.wraps)],
		linKey: make(map[string]bool, len(f.linKey)), truth: make(map[*Expr]bool, len(f.truth)),
		sets: make(map[*Expr]Set, len(f.sets)), eq: make(map[*Expr]*Expr, len(f.eq))}
	for k, v := range f.linKey {
		g.linKey[k] = v
	}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.sets {
		g.sets[k] = v
	}
	for k, v := range f.eq {
		g.eq[k] = v
	}
	return g
}

// find gives the representative of an opaque term.
func (f *Facts) find(e *Expr) *Expr {
	for {
		p, ok := f.eq[e]
		if !ok {
			return e
		}
		e = p
	}
}

// smallVals lists the possible values of a small atom.
func (f *Facts) smallVals(a *Expr) ([]int64, bool) {
	if s, ok := f.sets[a]; ok {
		return s.values(), true
	}
	if a.Dom > 0 && a.Dom <= 256 {
		out := make([]int64, a.Dom)
		for i := range out {
			out[i] = a.Lo + int64(i)
		}
		return out, true
	}
	if a.T != nil {
		if b, ok := a.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && a.Op != OCmp {
			out := make([]int64, 256)
			for i := range out {
				out[i] = int64(i)
			}
			return out, true
		}
	}
	return nil, false
}

// refined is the set of values of its only unknown under which e holds, if the unknown is small.
func (f *Facts) refined(e *Expr) (s Set, ok bool) {
	a := e.atoms[0]
	if _, isB := f.boolAtom(a); isB {
		return s, false
	}
	if _, small := f.smallVals(a); !small {
		return s, false
	}
	ok = f.enumerate(e, enumLimit, func(v interface{}, env map[*Expr]interface{}) bool {
		if b, _ := v.(bool); b {
			if n, ok := env[a].(int64); ok && n >= 0 && n < 256 {
				s.add(n)
			}
		}
		return true
	})
	return s, ok
}

func (f *Facts) boolAtom(a *Expr) ([]interface{}, bool) {
	if t, ok := f.truth[a]; ok {
		return []interface{}{t}, true
	}
	if isBool(a) {
		return []interface{}{true, false}, true
	}
	return nil, false
}

const enumLimit = 1 << 16

// enumerate evaluates e under all values of its small atoms; ok is false when an atom is not small.
func (f *Facts) enumerate(e *Expr, limit int, visit func(v interface{}, env map[*Expr]interface{}) bool) bool {
	if len(e.atoms) == 0 || len(e.atoms) > 3 {
		return false
	}
	vals := make([][]interface{}, len(e.atoms))
	n := 1
	for i, a := range e.atoms {
		if bs, ok := f.boolAtom(a); ok {
			vals[i] = bs
		} else if vs, ok := f.smallVals(a); ok {
			for _, v := range vs {
				vals[i] = append(vals[i], v)
			}
		} else {
			return false
		}
		n *= len(vals[i])
		if n > limit {
			return false
		}
	}
	env := map[*Expr]interface{}{}
	var rec func(i int) (bool, bool)
	rec = func(i int) (bool, bool) {
		if i == len(e.atoms) {
			v, ok := eval(e, env)
			if !ok {
				return false, false
			}
			return visit(v, env), true
		}
		for _, v := range vals[i] {
			env[e.atoms[i]] = v
			more, ok := rec(i + 1)
			if !ok {
				return false, false
			}
			if !more {
				return false, true
			}
		}
		return true, true
	}
	_, ok := rec(0)
	return ok
}

// domain is the set of possible values of a small atom; booleans are 0 and 1.
func (f *Facts) domain(a *Expr) (Set, bool) {
	var s Set
	if t, ok := f.truth[a]; ok {
		if t {
			s.add(1)
		} else {
			s.add(0)
		}
		return s, true
	}
	if isBool(a) {
		s.add(0)
		s.add(1)
		return s, true
	}
	if s, ok := f.sets[a]; ok {
		return s, true
	}
	if a.Dom > 0 && a.Dom <= 256 {
		if a.Lo < 0 || a.Lo+int64(a.Dom) > 256 {
			return s, false
		}
		for i := 0; i < a.Dom; i++ {
			s.add(a.Lo + int64(i))
		}
		return s, true
	}
	if a.T != nil {
		if b, ok := a.T.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && a.Op != OCmp {
			return Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}, true
		}
	}
	return s, false
}

type outKey struct {
	e       *Expr
	a, b, c Set
}

type outVal struct{ t, f, ok bool }

// outcomes tells which truth values a condition over small atoms takes.
func (f *Facts) outcomes(e *Expr) (seenT, seenF, ok bool) {
	if len(e.atoms) == 0 || len(e.atoms) > 3 {
		return false, false, false
	}
	k := outKey{e: e}
	cached := true
	for i, a := range e.atoms {
		s, ok := f.domain(a)
		if !ok {
			cached = false
			break
		}
		switch i {
		case 0:
			k.a = s
		case 1:
			k.b = s
		case 2:
			k.c = s
		}
	}
	if cached {
		if r, ok := f.c.outs[k]; ok {
			return r.t, r.f, r.ok
		}
	}
	ok = f.enumerate(e, enumLimit, func(v interface{}, _ map[*Expr]interface{}) bool {
		b, _ := v.(bool)
		if b {
			seenT = true
		} else {
			seenF = true
		}
		return !(seenT && seenF)
	})
	if cached {
		f.c.outs[k] = outVal{seenT, seenF, ok}
	}
	return seenT, seenF, ok
}

// Decide tells whether a condition holds in every, or in no, concrete state.
func (f *Facts) Decide(e *Expr) Tri {
	if f.bad {
		return Yes
	}
	if r, ok := f.memo[e]; ok {
		return r
	}
	r := f.decide(e, 3)
	if f.memo == nil {
		f.memo = map[*Expr]Tri{}
	}
	f.memo[e] = r
	return r
}

func (f *Facts) decide(e *Expr, depth int) Tri {
	if f.bad {
		return Yes
	}
	switch e.Op {
	case OConst:
		if e.C == true {
			return Yes
		}
		return No
	case ONot:
		return -f.decide(e.Args[0], depth)
	case OBAnd:
		a, b := f.decide(e.Args[0], depth), f.decide(e.Args[1], depth)
		if a == No || b == No {
			return No
		}
		if a == Yes && b == Yes {
			return Yes
		}
	case OBOr:
		a, b := f.decide(e.Args[0], depth), f.decide(e.Args[1], depth)
		if a == Yes || b == Yes {
			return Yes
		}
		if a == No && b == No {
			return No
		}
	}
	if t, ok := f.truth[e]; ok {
		if t {
			return Yes
		}
		return No
	}
	switch e.Op {
	case OCmp:
		a, b := f.find(e.Args[0]), f.find(e.Args[1])
		if a != e.Args[0] || b != e.Args[1] {
			var n *Expr
			if e.Name == "==" {
				n = f.c.EqO(a, b)
			} else {
				n = f.c.CmpO(e.Name, a, b)
			}
			if n != e {
				if r := f.decide(n, depth); r != Unknown {
					return r
				}
			}
		}
		if e.Name == "==" && isBool(a) && isBool(b) {
			if x, y := f.decide(a, depth), f.decide(b, depth); x != Unknown && y != Unknown {
				if x == y {
					return Yes
				}
				return No
			}
		}
		if e.Name == "==" {
			// conversions of equal integers
			if x, y := f.intOf(a), f.intOf(b); x != nil && y != nil {
				d := f.c.EqI(x, y)
				if d == f.c.True || (d != f.c.False && f.decideInt(d) == Yes) {
					return Yes
				}
			}
		}
		if e.Name == "==" && isStr(a) && isStr(b) {
			// strings of different lengths differ
			d := f.c.EqI(f.c.Len(a), f.c.Len(b))
			if d == f.c.False || (d != f.c.True && f.decideInt(d) == No) {
				return No
			}
			// a disequality known for equal terms
			for k, t := range f.truth {
				if !t && k.Op == OCmp && k.Name == "==" {
					x, y := f.find(k.Args[0]), f.find(k.Args[1])
					if (x == a && y == b) || (x == b && y == a) {
						return No
					}
				}
			}
		}
	}
	if seenT, seenF, ok := f.outcomes(e); ok {
		if seenT && !seenF {
			return Yes
		}
		if seenF && !seenT {
			return No
		}
		if !seenF && !seenT {
			return Yes // no value left: unreachable
		}
	}
	if e.Op == OLe || e.Op == OEq0 {
		if r := f.decideInt(e); r != Unknown {
			return r
		}
		if len(e.atoms) > 1 && len(e.atoms) <= 8 {
			if lo, hi, ok := f.parts(f.c.lin(e.Args[0])); ok {
				switch {
				case e.Op == OLe && hi <= 0, e.Op == OEq0 && lo == 0 && hi == 0:
					return Yes
				case lo > 0, e.Op == OEq0 && hi < 0:
					return No
				}
			}
		}
	}
	if depth > 0 {
		ne := f.c.Not(e)
		for _, cl := range f.clauses {
			if r := f.clause(cl, e, ne, depth); r != Unknown {
				return r
			}
		}
	}
	return Unknown
}

// intOf is the integer which a float is the conversion of.
func (f *Facts) intOf(e *Expr) *Expr {
	if e.T == nil || !isBasicFloat(e.T) {
		return nil
	}
	switch e.Op {
	case OConst:
		if x, ok := e.C.(float64); ok && math.Trunc(x) == x && math.Abs(x) < 1<<24 {
			return f.c.Int(int64(x))
		}
	case OConv:
		if a := e.Args[0]; IsInt(a.T) {
			return a
		} else if isBasicFloat(a.T) {
			return f.intOf(a)
		}
	case OUn:
		if e.Name == "-" {
			if a := f.intOf(e.Args[0]); a != nil {
				if n, ok := f.c.Scale(a, -1); ok {
					return n
				}
			}
		}
	}
	return nil
}

// clause uses a disjunction: if all but one side are refuted, the other holds.
func (f *Facts) clause(cl, e, ne *Expr, depth int) Tri {
	ds := f.c.disjuncts(cl)
	for i, d := range ds {
		if d != e && d != ne {
			continue
		}
		all := true
		for j, o := range ds {
			if j != i && f.decide(o, depth-1) != No {
				all = false
				break
			}
		}
		if all {
			if d == e {
				return Yes
			}
			return No
		}
	}
	return Unknown
}

// disjuncts flattens a disjunction.
func (c *Ctx) disjuncts(cl *Expr) []*Expr {
	if ds, ok := c.flat[cl]; ok {
		return ds
	}
	var ds []*Expr
	var flat func(x *Expr)
	flat = func(x *Expr) {
		if x.Op == OBOr {
			flat(x.Args[0])
			flat(x.Args[1])
			return
		}
		ds = append(ds, x)
	}
	flat(cl)
	c.flat[cl] = ds
	return ds
}

func (f *Facts) decideInt(e *Expr) Tri {
	if e.Op == OConst {
		if e.C == true {
			return Yes
		}
		return No
	}
	l := f.c.lin(e.Args[0])
	f.unwrap(l)
	if e.Op == OLe {
		if f.entails(l) {
			return Yes
		}
		if n, ok := linComb(l, -1, &Lin{C: 1}, 1); ok && f.entails(n) { // l >= 1
			return No
		}
		return Unknown
	}
	// l == 0
	if n, ok := linComb(l, 1, &Lin{C: 1}, 1); ok && f.entails(n) { // l <= -1
		return No
	}
	neg, ok := linComb(l, -1, &Lin{C: 1}, 1)
	if ok && f.entails(neg) { // l >= 1
		return No
	}
	if neg, ok = linComb(l, -1, &Lin{}, 0); ok && f.entails(l) && f.entails(neg) {
		return Yes
	}
	// the same reduction of equal integers
	if l.C == 0 && len(l.T) == 2 && l.T[0].K == -l.T[1].K {
		a, b := l.T[0].A, l.T[1].A
		if a.Op == OWrap && b.Op == OWrap && types.Identical(a.T, b.T) {
			if d := f.c.EqI(a.Args[0], b.Args[0]); d == f.c.True || d != f.c.False && f.decideInt(d) == Yes {
				return Yes
			}
		}
	}
	// a disequality known for an equal term
	for _, d := range f.diseq {
		for _, k := range []int64{1, -1} {
			x, ok1 := linComb(l, 1, d, k)
			y, ok2 := linComb(l, -1, d, -k)
			if ok1 && ok2 && len(x.T) < len(l.T)+len(d.T) && f.entails(x) && f.entails(y) {
				return No
			}
		}
	}
	return Unknown
}

// Assume adds a condition; it returns false if the condition contradicts what is known.
func (f *Facts) Assume(e *Expr) bool {
	if f.bad {
		return false
	}
	switch f.Decide(e) {
	case Yes:
		return true
	case No:
		f.bad = true
		return false
	}
	return f.add(e)
}

// carryOver repeats for key a what is known about the presence of key b, its equal.
func (f *Facts) carryOver(b, a *Expr) bool {
	for k, t := range f.truth {
		if k.Op != OApp || k.Name != "has" || len(k.Args) != 2 || k.Args[1] != b {
			continue
		}
		k2 := f.c.App("has", tBool, k.Args[0], a)
		if u, ok := f.truth[k2]; ok {
			if u != t {
				return false
			}
			continue
		}
		f.setTruth(k2, t)
	}
	return true
}

func (f *Facts) add(e *Expr) bool {
	c := f.c
	switch e.Op {
	case OBAnd:
		return f.Assume(e.Args[0]) && f.Assume(e.Args[1])
	case OBOr:
		if len(e.atoms) == 1 {
			if s, ok := f.refined(e); ok {
				if s.count() == 0 {
					f.bad = true
					return false
				}
				f.setTruth(e, true)
				f.setSet(e.atoms[0], s)
				f.retighten()
				return !f.bad
			}
		}
		f.setTruth(e, true)
		f.changed()
		f.clauses = append(f.clauses, e)
		for i := 0; i < 2; i++ {
			if f.Decide(e.Args[i]) == No {
				switch f.decide(e.Args[1-i], 0) {
				case Yes:
					return true
				case No:
					f.bad = true
					return false
				}
				return f.add(e.Args[1-i])
			}
		}
		return true
	case ONot:
		x := e.Args[0]
		switch x.Op {
		case OBOr:
			return f.Assume(c.Not(x.Args[0])) && f.Assume(c.Not(x.Args[1]))
		case OBAnd:
			return f.Assume(c.Or(c.Not(x.Args[0]), c.Not(x.Args[1])))
		}
		f.setTruth(x, false)
	default:
		f.setTruth(e, true)
	}
	pos := e
	val := true
	if e.Op == ONot {
		pos, val = e.Args[0], false
	}
	// small unknowns: refine their value sets
	if len(e.atoms) == 1 {
		if s, ok := f.refined(e); ok {
			if s.count() == 0 {
				f.bad = true
				return false
			}
			f.setSet(e.atoms[0], s)
			f.retighten()
			return !f.bad
		}
	}
	if val && pos.Op == OApp && len(pos.Args) == 1 {
		// a float is of one class only
		switch pos.Name {
		case "isnan", "isinfp", "isinfn":
			for _, n := range [...]string{"isnan", "isinfp", "isinfn"} {
				if n == pos.Name {
					continue
				}
				k := c.App(n, tBool, pos.Args[0])
				if t, ok := f.truth[k]; ok && t {
					f.bad = true
					return false
				} else if !ok {
					f.setTruth(k, false)
				}
			}
		}
	}
	switch pos.Op {
	case OLe:
		if val {
			f.addLin(c.lin(pos.Args[0]))
		}
	case OEq0:
		l := c.lin(pos.Args[0])
		if val {
			n, ok := linComb(l, -1, &Lin{}, 0)
			f.addLin(l)
			if ok {
				f.addLin(n)
			}
		} else {
			f.changed()
			f.diseq = append(f.diseq, l)
			f.retighten()
		}
	case OCmp:
		if pos.Name == "==" {
			a, b := f.find(pos.Args[0]), f.find(pos.Args[1])
			if val && a != b && !isBasicFloat(a.T) {
				// a constant, or the older term, represents
				if a.Op == OConst || (b.Op != OConst && a.id < b.id) {
					f.setEq(b, a)
				} else {
					f.setEq(a, b)
					a, b = b, a
				}
				if isStr(a) && !f.carryOver(b, a) {
					f.bad = true
					return false
				}
				if isStr(a) && isStr(b) {
					if !f.Assume(c.EqI(c.Len(a), c.Len(b))) {
						f.bad = true
						return false
					}
				}
				for k, t := range f.truth {
					if !t && k.Op == OCmp && k.Name == "==" && f.find(k.Args[0]) == f.find(k.Args[1]) && !isBasicFloat(k.Args[0].T) {
						f.bad = true
						return false
					}
				}
			}
		}
	}
	if b2i, ok := c.tab[c.b2iKey(pos)]; ok {
		v := c.Zero
		if val {
			v = c.One
		}
		if !f.Assume(c.eq0(c.Sub(b2i, v))) {
			return false
		}
	}
	return f.units(e)
}

// propagate draws the conclusions from the clauses.
func (f *Facts) propagate() bool {
	for i := 0; i < 3; i++ {
		n := len(f.lins) + len(f.truth) + len(f.eq) + len(f.diseq)
		if !f.units(nil) {
			return false
		}
		if len(f.lins)+len(f.truth)+len(f.eq)+len(f.diseq) == n {
			break
		}
	}
	return true
}

// units is unit propagation over the clauses, but for e.
func (f *Facts) units(e *Expr) bool {
	for _, cl := range f.clauses {
		if cl == e {
			continue
		}
		a, b := f.decide(cl.Args[0], 1), f.decide(cl.Args[1], 1)
		switch {
		case a == No && b == No:
			f.bad = true
			return false
		case a == No && f.decide(cl.Args[1], 0) == Unknown:
			if !f.add(cl.Args[1]) {
				return false
			}
		case b == No && f.decide(cl.Args[0], 0) == Unknown:
			if !f.add(cl.Args[0]) {
				return false
			}
		}
	}
	return !f.bad
}

func (c *Ctx) b2iKey(e *Expr) string { return "ab2i(" + strconv.Itoa(e.id) + ",)int" }

// B2I is 1 if e holds and 0 otherwise.
func (c *Ctx) B2I(e *Expr) *Expr {
	if e.Op == OConst {
		if e.C == true {
			return c.One
		}
		return c.Zero
	}
	if e.Op == ONot {
		return c.Sub(c.One, c.B2I(e.Args[0]))
	}
	x := c.App("b2i", tInt, e)
	x.Dom = 2
	return x
}

func isStr(e *Expr) bool { return e.T != nil && isBasic(e.T, types.IsString) }

// Len is the length of a string term.
func (c *Ctx) Len(s *Expr) *Expr {
	if s.Op == OConst {
		if x, ok := s.C.(string); ok {
			return c.Int(int64(len(x)))
		}
	}
	if s.Op == OApp {
		switch s.Name {
		case "substr":
			return c.Sub(s.Args[2], s.Args[1])
		case "concat":
			return c.Add(c.Len(s.Args[0]), c.Len(s.Args[1]))
		case "chr":
			return c.One
		case "strof": // contents of a byte sequence: (id, length)
			return s.Args[1]
		}
	}
	return c.App("len", tInt, s)
}

func (f *Facts) addLin(l *Lin) {
	l = tighten(l)
	k := l.key()
	if f.linKey[k] {
		return
	}
	if len(l.T) == 0 {
		if l.C > 0 {
			f.bad = true
		}
		return
	}
	f.changed()
	f.shrink(l)
	f.lins = append(f.lins, l)
	f.linKey[k] = true
	f.jr = append(f.jr, undo{'k', k, nil})
	f.unwrap(l)
	f.retightenFor(l)
}

// unwrap resolves conversions which keep the value in the known range.
// shrink leaves out the values of small unknowns which l <= 0 excludes.
func (f *Facts) shrink(l *Lin) {
	if len(l.T) < 2 || len(l.T) > 8 {
		return
	}
	ext := func(t LTerm, s *Set) int64 {
		lo, hi, _ := s.ends()
		if t.K < 0 {
			return t.K * hi
		}
		return t.K * lo
	}
	sets := make([]Set, len(l.T))
	least := l.C
	for i, t := range l.T {
		if t.K > 1<<40 || t.K < -1<<40 || isBool(t.A) || least > 1<<60 || least < -1<<60 {
			return
		}
		if _, ok := f.smallVals(t.A); !ok {
			return
		}
		s, ok := f.domain(t.A)
		if !ok || s.count() == 0 {
			return
		}
		sets[i] = s
		least += ext(t, &s)
	}
	for i, t := range l.T {
		others := least - ext(t, &sets[i])
		var n Set
		for _, v := range sets[i].values() {
			if others+t.K*v <= 0 {
				n.add(v)
			}
		}
		if n != sets[i] {
			if n.count() == 0 {
				f.bad = true
				return
			}
			f.changed()
			f.setSet(t.A, n)
		}
	}
}

// parts bounds a sum whose terms are functions of small unknowns; terms which share an unknown are taken together.
func (f *Facts) parts(l *Lin) (lo, hi int64, ok bool) {
	type part struct {
		atoms map[*Expr]bool
		e     *Expr
	}
	var ps []*part
	for _, t := range l.T {
		if t.K > 1<<30 || t.K < -1<<30 || len(t.A.atoms) == 0 || len(t.A.atoms) > 2 {
			return 0, 0, false
		}
		for _, a := range t.A.atoms {
			if _, ok := f.boolAtom(a); ok {
				return 0, 0, false
			}
			if _, ok := f.smallVals(a); !ok {
				return 0, 0, false
			}
		}
		x, ok := f.c.Scale(t.A, t.K)
		if !ok {
			return 0, 0, false
		}
		n := &part{map[*Expr]bool{}, x}
		for _, a := range t.A.atoms {
			n.atoms[a] = true
		}
		var rest []*part
		for _, q := range ps {
			share := false
			for a := range q.atoms {
				share = share || n.atoms[a]
			}
			if !share {
				rest = append(rest, q)
				continue
			}
			for a := range q.atoms {
				n.atoms[a] = true
			}
			n.e = f.c.Add(n.e, q.e)
		}
		ps = append(rest, n)
	}
	lo, hi = l.C, l.C
	for _, q := range ps {
		if len(q.e.atoms) > 2 {
			return 0, 0, false
		}
		if n, ok := q.e.Int64(); ok {
			lo, hi = lo+n, hi+n
			continue
		}
		first := true
		var a, b int64
		good := f.enumerate(q.e, 4096, func(v interface{}, _ map[*Expr]interface{}) bool {
			n, is := v.(int64)
			if u, isU := v.(uint64); isU && u < 1<<40 {
				n, is = int64(u), true
			}
			if !is {
				first = true
				return false
			}
			if first || n < a {
				a = n
			}
			if first || n > b {
				b = n
			}
			first = false
			return true
		})
		if !good || first || a < -1<<50 || b > 1<<50 {
			return 0, 0, false
		}
		lo, hi = lo+a, hi+b
	}
	return lo, hi, true
}

func (f *Facts) unwrap(l *Lin) {
	for _, t := range l.T {
		if t.A.Op != OWrap {
			continue
		}
		seen := false
		for _, w := range f.wraps {
			seen = seen || w == t.A
		}
		if !seen && !f.linKey["w"+strconv.Itoa(t.A.id)] {
			f.wraps = append(f.wraps[:len(f.wraps):len(f.wraps)], t.A)
		}
	}
	if f.inUnwrap {
		return
	}
	f.inUnwrap = true
	defer func() { f.inUnwrap = false }()
	for i := 0; i < len(f.wraps); i++ {
		w := f.wraps[i]
		lo, hi, hiOK := rangeOf(w.T)
		x := f.c.lin(w.Args[0])
		a, ok1 := linComb(x, -1, &Lin{C: 1}, lo)
		if !ok1 || !f.entails(a) {
			continue
		}
		if hiOK {
			b, ok2 := linComb(x, 1, &Lin{C: 1}, -hi)
			if !ok2 || !f.entails(b) {
				continue
			}
		}
		p, ok1 := linComb(x, 1, f.c.lin(w), -1)
		q, ok2 := linComb(x, -1, f.c.lin(w), 1)
		if !ok1 || !ok2 {
			continue
		}
		f.wraps = append(append([]*Expr{}, f.wraps[:i]...), f.wraps[i+1:]...)
		i--
		k := "w" + strconv.Itoa(w.id)
		f.linKey[k] = true
		f.jr = append(f.jr, undo{'k', k, nil})
		f.addLin(p)
		f.addLin(q)
	}
}

// retighten uses disequalities at the ends of known ranges.
func (f *Facts) retighten() {
	for _, d := range f.diseq {
		f.tryDiseq(d)
	}
}

func (f *Facts) retightenFor(l *Lin) {
	for _, d := range f.diseq {
		share := false
		for _, t := range d.T {
			for _, u := range l.T {
				if t.A == u.A {
					share = true
				}
			}
		}
		if share {
			f.tryDiseq(d)
		}
	}
}

func (f *Facts) tryDiseq(d *Lin) {
	if f.bad {
		return
	}
	up, ok1 := linComb(d, 1, &Lin{C: 1}, 1)  // d + 1 <= 0
	dn, ok2 := linComb(d, -1, &Lin{C: 1}, 1) // 1 - d <= 0
	neg, ok3 := linComb(d, -1, &Lin{}, 0)
	if !ok1 || !ok2 || !ok3 {
		return
	}
	le, ge := f.entails(d), f.entails(neg)
	switch {
	case le && ge:
		f.bad = true
	case le:
		if !f.linKey[tighten(up).key()] {
			f.addLin(up)
		}
	case ge:
		if !f.linKey[tighten(dn).key()] {
			f.addLin(dn)
		}
	}
}

// bounds gives the implicit range of an atom.
func (f *Facts) bounds(a *Expr) (lo, hi int64, loOK, hiOK bool) {
	if s, ok := f.sets[a]; ok {
		if lo, hi, ok := s.ends(); ok {
			return lo, hi, true, true
		}
	}
	if a.Dom > 0 {
		return a.Lo, a.Lo + int64(a.Dom) - 1, true, true
	}
	if a.Op == OApp && a.Name == "len" {
		if s := a.Args[0]; s.Op == OApp && (s.Name == "decimal" || s.Name == "strconv.FormatFloat") {
			return 1, MaxLen, true, true
		}
		if s := a.Args[0]; s.Op == OApp && s.Name == "runestr" {
			return 1, 4, true, true
		}
		return 0, MaxLen, true, true
	}
	if a.Op == OApp && (a.Name == "reflect.Len#0" || a.Name == "reflect.NumField#0" || a.Name == "posof" || a.Name == "invperm") {
		return 0, MaxLen, true, true
	}
	if a.Op == OApp && a.Name == "runeat" {
		return 0, 0x10FFFF, true, true
	}
	if a.Op == OApp && a.Name == "runelen" {
		return 1, 4, true, true
	}
	if a.T != nil && IsInt(a.T) {
		lo, hi, ok := rangeOf(a.T)
		if bits(a.T) == 64 && !isUnsigned(a.T) {
			return lo, hi, true, true
		}
		return lo, hi, true, ok
	}
	return 0, 0, false, false
}

// entails tells whether l <= 0 follows from the linear facts.
func (f *Facts) entails(l *Lin) bool {
	if len(l.T) == 0 {
		return l.C <= 0
	}
	l = tighten(l)
	// interval check
	if hi, ok := f.upper(l); ok {
		if hi <= 0 {
			return true
		}
	}
	if f.needsWide(l) {
		if hi, _, ok := f.wide(f.resolved(l), 0); ok && hi.Sign() <= 0 {
			return true
		}
	}
	// a fact with the same terms
	for _, g := range f.lins {
		if len(g.T) == len(l.T) && g.C >= l.C && sameTerms(g, l) {
			return true
		}
	}
	return f.fm(l)
}

func sameTerms(a, b *Lin) bool {
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (f *Facts) upper(l *Lin) (int64, bool) {
	s := l.C
	for _, t := range l.T {
		lo, hi, loOK, hiOK := f.bounds(t.A)
		v, ok := hi, hiOK
		if t.K < 0 {
			v, ok = lo, loOK
		}
		if !ok {
			return 0, false
		}
		p, ok1 := mulOv(t.K, v)
		q, ok2 := addOv(s, p)
		if !ok1 || !ok2 {
			return 0, false
		}
		s = q
	}
	return s, true
}

// resolved replaces conversions which are known to keep the value.
func (f *Facts) resolved(l *Lin) *Lin {
	for i := 0; i < 8; i++ {
		again := false
		for _, t := range l.T {
			if t.A.Op == OWrap && f.linKey["w"+strconv.Itoa(t.A.id)] {
				x, ok1 := linComb(l, 1, &Lin{T: []LTerm{{1, t.A}}}, -t.K)
				y, ok2 := linComb(x, 1, f.c.lin(t.A.Args[0]), t.K)
				if ok1 && ok2 {
					l, again = y, true
					break
				}
			}
		}
		if !again {
			break
		}
	}
	return l
}

// needsWide tells whether a form has parts beyond int64.
func (f *Facts) needsWide(l *Lin) bool {
	for _, t := range l.T {
		if a := t.A; a.Op == OApp && (a.Name == "sub" || a.Name == "add") || a.Op == OConst || a.Op == OWrap || a.T != nil && isUnsigned(a.T) && bits(a.T) == 64 {
			return true
		}
	}
	return false
}

// wide gives the range of a linear form in unbounded arithmetic.
func (f *Facts) wide(l *Lin, depth int) (hi, lo *big.Int, ok bool) {
	hi, lo = big.NewInt(l.C), big.NewInt(l.C)
	for _, t := range l.T {
		var h, w *big.Int
		if a := t.A; a.Op == OApp && (a.Name == "sub" || a.Name == "add") && len(a.Args) == 2 && depth < 4 {
			h1, l1, ok1 := f.wide(f.resolved(f.c.lin(a.Args[0])), depth+1)
			h2, l2, ok2 := f.wide(f.resolved(f.c.lin(a.Args[1])), depth+1)
			if !ok1 || !ok2 {
				return nil, nil, false
			}
			if a.Name == "sub" {
				h, w = new(big.Int).Sub(h1, l2), new(big.Int).Sub(l1, h2)
			} else {
				h, w = new(big.Int).Add(h1, h2), new(big.Int).Add(l1, l2)
			}
		} else if a.Op == OConst {
			n, isU := a.C.(uint64)
			if !isU {
				return nil, nil, false
			}
			h = new(big.Int).SetUint64(n)
			w = h
		} else {
			x, y, ok1, ok2 := f.bounds(a)
			if !ok1 {
				return nil, nil, false
			}
			w, h = big.NewInt(x), big.NewInt(y)
			if !ok2 {
				if a.T == nil || !IsInt(a.T) || bits(a.T) != 64 {
					return nil, nil, false
				}
				h = new(big.Int).SetUint64(math.MaxUint64)
			}
		}
		k := big.NewInt(t.K)
		if t.K < 0 {
			h, w = w, h
		}
		hi = new(big.Int).Add(hi, new(big.Int).Mul(k, h))
		lo = new(big.Int).Add(lo, new(big.Int).Mul(k, w))
	}
	return hi, lo, true
}

// fm decides l <= 0 by refuting l >= 1 with Fourier-Motzkin elimination.
func (f *Facts) fm(l *Lin) bool {
	goal, ok := linComb(l, -1, &Lin{C: 1}, 1)
	if !ok {
		// a slightly stronger claim which can be represented
		if l, ok = linComb(l, 1, &Lin{C: 1}, 1); !ok {
			return false
		}
		if goal, ok = linComb(l, -1, &Lin{C: 1}, 1); !ok {
			return false
		}
	}
	// collect the facts connected with the goal
	atoms := map[*Expr]bool{}
	for _, t := range goal.T {
		atoms[t.A] = true
	}
	used := make([]bool, len(f.lins))
	cons := []*Lin{goal}
	for round := 0; round < 4; round++ {
		grown := false
		var news []*Expr
		for i, g := range f.lins {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range g.T {
				if atoms[t.A] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				grown = true
				cons = append(cons, g)
				for _, t := range g.T {
					news = append(news, t.A)
				}
			}
		}
		for _, a := range news {
			atoms[a] = true
		}
		if !grown || len(cons) > 60 {
			break
		}
	}
	as := make([]*Expr, 0, len(atoms))
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		lo, hi, loOK, hiOK := f.bounds(a)
		if loOK && lo > math.MinInt64 {
			cons = append(cons, &Lin{C: lo, T: []LTerm{{-1, a}}})
		}
		if hiOK && hi < math.MaxInt64 {
			cons = append(cons, &Lin{C: -hi, T: []LTerm{{1, a}}})
		}
	}
	keys := make([]string, len(cons))
	for i, k := range cons {
		keys[i] = k.key()
	}
	sort.Strings(keys[1:])
	ck := strings.Join(keys, ";")
	if r, ok := f.c.fmCache[ck]; ok {
		f.c.fmHits++
		return r
	}
	f.c.fmCalls++
	if os.Getenv("AI_FM") != "" && f.c.fmCalls%200 == 0 {
		fmt.Println("FM", f.c.fmCalls, len(cons), len(as))
		for _, k := range cons {
			fmt.Println("   ", f.c.fromLin(k), "<= 0")
		}
	}
	r := refute(cons)
	f.c.fmCache[ck] = r
	return r
}

func refute(cons []*Lin) bool {
	best := map[string]*Lin{}
	var cur []*Lin
	var kb []byte
	push := func(dst *[]*Lin, l *Lin) bool { // returns true on contradiction
		l = tighten(l)
		if len(l.T) == 0 {
			return l.C > 0
		}
		kb = kb[:0]
		for _, t := range l.T {
			kb = binary.AppendVarint(kb, t.K)
			kb = binary.AppendUvarint(kb, uint64(t.A.id))
		}
		o, ok := best[string(kb)]
		if ok {
			if o.C >= l.C {
				return false
			}
			// replace the weaker one
			for i, x := range *dst {
				if x == o {
					(*dst)[i] = l
					best[string(kb)] = l
					return false
				}
			}
		}
		best[string(kb)] = l
		*dst = append(*dst, l)
		return false
	}
	for _, l := range cons {
		if push(&cur, l) {
			return true
		}
	}
	for step := 0; step < 40; step++ {
		// choose the atom with the cheapest elimination
		type cnt struct{ p, n int }
		cs := map[*Expr]cnt{}
		for _, l := range cur {
			for _, t := range l.T {
				x := cs[t.A]
				if t.K > 0 {
					x.p++
				} else {
					x.n++
				}
				cs[t.A] = x
			}
		}
		if len(cs) == 0 {
			return false
		}
		var pick *Expr
		bc := math.MaxInt32
		for a, x := range cs {
			cost := x.p*x.n - x.p - x.n
			if cost < bc || (cost == bc && a.id < pick.id) {
				bc, pick = cost, a
			}
		}
		var pos, neg, rest []*Lin
		coef := func(l *Lin) int64 {
			for _, t := range l.T {
				if t.A == pick {
					return t.K
				}
			}
			return 0
		}
		for _, l := range cur {
			switch k := coef(l); {
			case k > 0:
				pos = append(pos, l)
			case k < 0:
				neg = append(neg, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(pos)*len(neg)+len(rest) > 400 {
			return false
		}
		best = map[string]*Lin{}
		cur = nil
		for _, l := range rest {
			if push(&cur, l) {
				return true
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				kp, kn := coef(p), -coef(n)
				g := gcd(kp, kn)
				r, ok := linComb(p, kn/g, n, kp/g)
				if !ok {
					continue
				}
				if push(&cur, r) {
					return true
				}
			}
		}
	}
	return false
}

// dump shows the facts (for debugging).
func (f *Facts) dump() string {
	var b strings.Builder
	for _, l := range f.lins {
		b.WriteString("    lin " + l.key() + "\n")
	}
	for e, t := range f.truth {
		b.WriteString("    " + strconv.FormatBool(t) + " " + e.String() + "\n")
	}
	for _, l := range f.diseq {
		b.WriteString("    diseq " + l.key() + "\n")
	}
	for a, r := range f.eq {
		b.WriteString("    eq " + a.String() + " = " + r.String() + "\n")
	}
	for _, e := range f.clauses {
		b.WriteString("    clause " + e.String() + "\n")
	}
	return b.String()
}

// without keeps only the facts which do not mention the given unknowns.
func (f *Facts) without(dead map[*Expr]bool) *Facts {
	memo := map[*Expr]bool{}
	var has func(e *Expr) bool
	linHas := func(l *Lin) bool {
		for _, t := range l.T {
			if has(t.A) {
				return true
			}
		}
		return false
	}
	has = func(e *Expr) bool {
		if dead[e] {
			return true
		}
		if r, ok := memo[e]; ok {
			return r
		}
		memo[e] = false
		r := false
		if e.L != nil {
			r = linHas(e.L)
		}
		for _, a := range e.Args {
			r = r || has(a)
		}
		memo[e] = r
		return r
	}
	g := newFacts(f.c)
	g.bad = f.bad
	for _, l := range f.lins {
		if !linHas(l) {
			g.lins = append(g.lins, l)
			g.linKey[l.key()] = true
		}
	}
	for _, l := range f.diseq {
		if !linHas(l) {
			g.diseq = append(g.diseq, l)
		}
	}
	for _, e := range f.clauses {
		if !has(e) {
			g.clauses = append(g.clauses, e)
		}
	}
	for _, e := range f.wraps {
		if !has(e) {
			g.wraps = append(g.wraps, e)
		}
	}
	for e, t := range f.truth {
		if !has(e) {
			g.truth[e] = t
		}
	}
	for e, s := range f.sets {
		if !has(e) {
			g.sets[e] = s
		}
	}
	for e, r := range f.eq {
		if !has(e) && !has(r) {
			g.eq[e] = r
		}
	}
	return g
}
