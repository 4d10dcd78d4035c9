package ai

import (
	"go/types"
	mbits "math/bits"
	"sort"
)

// field is a part of a number: its value, between 0 and max, stands at bit k; no two fields share a bit.
type field struct {
	k   int
	e   *Expr
	max int64
}

// fields writes a non-negative number as a sum of parts which share no bit, plus constant bits which no part has.
func (d *D) fields(e *Expr) (fs []field, rest int64, ok bool) {
	c := d.in.C
	l := c.lin(e)
	if len(l.T) == 0 || len(l.T) > 12 {
		return nil, 0, false
	}
	rest = l.C
	for _, t := range l.T {
		if t.K <= 0 || t.K&(t.K-1) != 0 {
			return nil, 0, false
		}
		lo, hi, ok := d.span(t.A)
		if !ok {
			return nil, 0, false
		}
		rest += t.K * lo
		fs = append(fs, field{mbits.TrailingZeros64(uint64(t.K)), c.Sub(t.A, c.Int(lo)), hi - lo})
	}
	if rest < 0 {
		return nil, 0, false
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].k > fs[j].k })
	for i := range fs {
		o := rest >> uint(fs[i].k)
		rest -= o << uint(fs[i].k)
		fs[i].e = c.Add(fs[i].e, c.Int(o))
		fs[i].max += o
	}
	// parts which overlap are taken together
	for i := len(fs) - 1; i > 0; i-- {
		lo, hi := fs[i], fs[i-1]
		if lo.max>>uint(hi.k-lo.k) == 0 {
			continue
		}
		s, ok := c.Scale(hi.e, 1<<uint(hi.k-lo.k))
		if !ok || hi.k-lo.k > 30 {
			return nil, 0, false
		}
		fs[i-1] = field{lo.k, c.Add(s, lo.e), hi.max<<uint(hi.k-lo.k) + lo.max}
		fs = append(fs[:i], fs[i+1:]...)
	}
	return fs, rest, true
}

// span bounds a small unknown.
func (d *D) span(e *Expr) (lo, hi int64, ok bool) {
	first := true
	ok = d.st.F.enumerate(e, 4096, func(v interface{}, _ map[*Expr]interface{}) bool {
		n, is := v.(int64)
		if u, isU := v.(uint64); isU && u < 1<<40 {
			n, is = int64(u), true
		}
		if !is {
			first = true
			return false
		}
		if first || n < lo {
			lo = n
		}
		if first || n > hi {
			hi = n
		}
		first = false
		return true
	})
	return lo, hi, ok && !first
}

// masked is e & mask, part by part.
func (d *D) masked(e *Expr, mask int64, T types.Type) (*Expr, bool) {
	fs, rest, ok := d.fields(e)
	if !ok {
		return nil, false
	}
	c := d.in.C
	r := c.Int(rest & mask)
	for _, f := range fs {
		m := mask >> uint(f.k)
		all := int64(1)<<uint(mbits.Len64(uint64(f.max))) - 1
		x := f.e
		switch {
		case m&all == 0:
			continue
		case m&all != all:
			x = c.node(OBin, "&", types.Typ[types.Int], f.e, c.Int(m&all))
		}
		s, ok := c.Scale(x, 1<<uint(f.k))
		if !ok {
			return nil, false
		}
		r = c.Add(r, s)
	}
	return r, true
}

// shifted is e >> n, part by part.
func (d *D) shifted(e *Expr, n int) (*Expr, bool) {
	fs, rest, ok := d.fields(e)
	if !ok {
		return nil, false
	}
	c := d.in.C
	r := c.Int(rest >> uint(n))
	for _, f := range fs {
		x, k := f.e, f.k-n
		if k < 0 {
			if f.max>>uint(-k) == 0 {
				continue
			}
			x = c.node(OBin, ">>", types.Typ[types.Int], f.e, c.Int(int64(-k)))
			k = 0
		}
		s, ok := c.Scale(x, 1<<uint(k))
		if !ok {
			return nil, false
		}
		r = c.Add(r, s)
	}
	return r, true
}

// possible is the set of bits which e may have.
func (d *D) possible(e *Expr) (int64, bool) {
	if n, ok := e.Int64(); ok {
		return n, n >= 0
	}
	fs, rest, ok := d.fields(e)
	if !ok {
		return 0, false
	}
	for _, f := range fs {
		rest |= (int64(1)<<uint(mbits.Len64(uint64(f.max))) - 1) << uint(f.k)
	}
	return rest, true
}
