package ai

import (
	"go/types"

	"verif/analyzer/prog"
)

// Roles finds the parts of the value type by their types, not by their names.
type Roles struct {
	V        *types.Named
	VT       *types.Named // ValueType
	Type     []int        // path of the type field
	Src      []int        // path of the number's text ([]byte)
	F64      []int
	Arr      []int // []*V
	Obj      []int // map[string]... holding *V
	Index    []int // map without *V below
	Counter  []int // integer next to Obj
	indexT   types.Type
	children [][]int
}

func findRoles(p *prog.Program) *Roles {
	r := &Roles{}
	o := p.Main.Pkg.Scope().Lookup("V")
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	r.V = n
	if t := p.Main.Pkg.Scope().Lookup("ValueType"); t != nil {
		r.VT, _ = t.Type().(*types.Named)
	}
	var walk func(t types.Type, path []int)
	walk = func(t types.Type, path []int) {
		st, ok := under(t).(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			pp := append(append([]int{}, path...), i)
			if r.VT != nil && types.Identical(ft, r.VT) {
				r.Type = pp
				continue
			}
			switch u := under(ft).(type) {
			case *types.Struct:
				walk(ft, pp)
			case *types.Slice:
				if r.isPtrV(u.Elem()) {
					r.Arr = pp
				} else if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
					r.Src = pp
				}
			case *types.Map:
				if r.holdsV(u.Elem()) {
					r.Obj = pp
				} else {
					r.Index = pp
					r.indexT = ft
				}
			case *types.Basic:
				if u.Kind() == types.Float64 {
					r.F64 = pp
				}
				if u.Kind() == types.Uint32 || u.Kind() == types.Uint64 || u.Kind() == types.Int {
					// the counter of set order stands beside the children
					r.children = append(r.children, pp)
				}
			}
		}
	}
	walk(n, nil)
	for _, c := range r.children {
		if len(c) == len(r.Obj) && same(c[:len(c)-1], r.Obj[:len(r.Obj)-1]) {
			r.Counter = c
		}
	}
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *Roles) isV(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && r.V != nil && n.Obj() == r.V.Obj()
}

func (r *Roles) isPtrV(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && r.isV(p.Elem())
}

func (r *Roles) holdsV(t types.Type) bool {
	if r.isPtrV(t) {
		return true
	}
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if r.holdsV(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// leaf follows a path of fields.
func leaf(v Val, path []int) Val {
	if path == nil {
		return nil
	}
	for _, i := range path {
		s, ok := v.(*StructV)
		if !ok {
			return nil
		}
		v = s.F[i]
	}
	return v
}

// NonFinite is the condition that a float is NaN or infinite.
func (c *Ctx) NonFinite(f *Expr) *Expr {
	return c.Or(c.App("isnan", tBool, f), c.Or(c.App("isinfp", tBool, f), c.App("isinfn", tBool, f)))
}

const (
	tyString  = 1
	tyNumber  = 2
	tyObject  = 3
	tyArray   = 4
	tyBoolean = 5
	tyNull    = 6
)

// invariants adds what holds for every initialised value of the library (established by C13 and the constructors).
func (st *State) invariants(o *Obj, v Val) {
	in := st.in
	r := in.R
	if r == nil || !o.Valid || o.Kind != 'v' || !r.isV(o.T) {
		return
	}
	c := in.C
	ty, ok := leaf(v, r.Type).(*Expr)
	if !ok {
		return
	}
	if ty.Dom == 0 {
		ty.Dom, ty.Lo = 6, 1
	}
	is := func(k int64) *Expr { return c.EqI(ty, c.Int(k)) }
	add := func(e *Expr) {
		if _, ok := st.F.truth[e]; !ok {
			st.F.Assume(e)
		}
	}
	if s, ok := leaf(v, r.Arr).(*SliceV); ok {
		add(c.Or(is(tyArray), c.EqI(s.Len, c.Zero)))
		add(c.Or(c.Not(s.Nil), c.EqI(s.Len, c.Zero)))
		add(c.Le(s.Len, s.Cap))
	}
	if m, ok := leaf(v, r.Obj).(*MapV); ok {
		add(c.Or(is(tyObject), c.EqI(c.App("len", tInt, m.O.Sym), c.Zero)))
		add(c.Or(c.Not(is(tyObject)), c.Not(m.Nil)))
	}
	if s, ok := leaf(v, r.Src).(*SliceV); ok {
		if f, ok := leaf(v, r.F64).(*Expr); ok {
			num := is(tyNumber)
			empty := c.EqI(s.Len, c.Zero)
			add(c.Or(c.Not(num), c.Or(c.Not(empty), c.NonFinite(f))))
			for _, n := range []string{"isnan", "isinfp", "isinfn"} {
				add(c.Or(c.Not(num), c.Or(empty, c.Not(c.App(n, tBool, f)))))
			}
		}
	}
}
