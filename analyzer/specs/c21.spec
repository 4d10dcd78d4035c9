package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// copied is a copy of v; the copy of a part is an unknown function of it (induction step)
func copied(v *jsonvalue.V) *jsonvalue.V {
	Recursion(func(m *jsonvalue.V) *jsonvalue.V { return UFV("copy", m) })
	w, err := jsonvalue.Import(v)
	Assert("a value can be imported", err == nil)
	Assert("a copy is another value", w != nil && w != v)
	Assert("a copy has the type of its original", Kind(w) == Kind(v))
	return w
}

func of(v *jsonvalue.V, t jsonvalue.ValueType) *jsonvalue.V {
	Assume(Kind(v) == t)
	return v
}

func SpecC21String() {
	NoPanic()
	v := of(AnyV("v"), jsonvalue.String)
	w := copied(v)
	Assert("a copied text is the same", w.String() == v.String())
}

func SpecC21Bool() {
	NoPanic()
	v := of(AnyV("v"), jsonvalue.Boolean)
	w := copied(v)
	Assert("a copied boolean is the same", w.Bool() == v.Bool())
}

func SpecC21Null() {
	NoPanic()
	copied(of(AnyV("v"), jsonvalue.Null))
}

func SpecC21Number() {
	NoPanic()
	v := of(AnyV("v"), jsonvalue.Number)
	w := copied(v)
	Assert("a copied number has a text if the original has", HasText(w) == HasText(v))
	if HasText(v) {
		Assert("a copied number has the same text", w.String() == v.String())
	}
	Assert("a copied number has the same integers", w.Int64() == v.Int64() && w.Uint64() == v.Uint64())
	Assert("a copied number has the same kind", w.IsFloat() == v.IsFloat() && w.IsNegative() == v.IsNegative())
	x := AnyFloat64("x")
	Assert("a copied number has the same float", (w.Float64() == x) == (v.Float64() == x) && (w.Float64() < x) == (v.Float64() < x))
}

func SpecC21Object() {
	NoPanic()
	v := of(AnyV("v"), jsonvalue.Object)
	q := AnyString("q")
	w := copied(v)
	Assert("a copied object has the same number of members", Count(w) == Count(v))
	Assert("a copied object has the same keys", Has(w, q) == Has(v, q))
	if Has(v, q) {
		Assert("a member of a copied object is the copy of the member", Member(w, q) == UFV("copy", Member(v, q)))
	}
	AssertUntouched("copying changes nothing")
}

func SpecC21Array() {
	NoPanic()
	v := of(AnyV("v"), jsonvalue.Array)
	q := AnyInt("q")
	Assume(0 <= q)
	w := copied(v)
	Assert("a copied array has the same length", Len(w) == Len(v))
	if q < Len(v) && q < Len(w) {
		Assert("an element of a copied array is the copy of the element", Elem(w, q) == UFV("copy", Elem(v, q)))
	}
	AssertUntouched("copying changes nothing")
}

// change changes m in some way
func change(m *jsonvalue.V) {
	c := AnyV("c")
	k, i := AnyString("k"), AnyInt("i")
	switch AnyInt("how") {
	case 0:
		m.Set(c).At(k)
	case 1:
		m.Set(c).At(i)
	case 2:
		m.Append(c).InTheEnd()
	case 3:
		m.Append(c).InTheBeginning()
	case 4:
		m.Insert(c).Before(i)
	case 5:
		m.Insert(c).After(i)
	case 6:
		m.Delete(k)
	case 7:
		m.Delete(i)
	case 8:
		m.SetInt(1).At(k)
	case 9:
		m.AppendString("s").InTheEnd()
	}
}

// SpecC21ObjectChanged: changes of a copy do not show in the original
func SpecC21ObjectChanged() {
	w := copied(of(AnyV("v"), jsonvalue.Object))
	change(w)
	AssertUntouched("a change of a copied object changes nothing else")
}

func SpecC21ArrayChanged() {
	w := copied(of(AnyV("v"), jsonvalue.Array))
	change(w)
	AssertUntouched("a change of a copied array changes nothing else")
}

// SpecC21ObjectOriginal: changes of the original do not show in the copy
func SpecC21ObjectOriginal() {
	v := of(AnyV("v"), jsonvalue.Object)
	q := AnyString("q")
	w := copied(v)
	n, has, m := Count(w), Has(w, q), Member(w, q)
	change(v)
	Assert("a copied object stays as it was", Count(w) == n && Has(w, q) == has && Kind(w) == jsonvalue.Object)
	if has {
		Assert("a member of a copied object stays as it was", Member(w, q) == m)
	}
}

func SpecC21ArrayOriginal() {
	v := of(AnyV("v"), jsonvalue.Array)
	q := AnyInt("q")
	Assume(0 <= q)
	w := copied(v)
	n := Len(w)
	var m *jsonvalue.V
	if q < n {
		m = Elem(w, q)
	}
	change(v)
	Assert("a copied array stays as it was", Len(w) == n && Kind(w) == jsonvalue.Array)
	if q < n && q < Len(w) {
		Assert("an element of a copied array stays as it was", Elem(w, q) == m)
	}
}

// SpecC21Parts: a value among the parts of a Go value is copied, too
func SpecC21InSlice() {
	Recursion(func(m *jsonvalue.V) *jsonvalue.V { return UFV("copy", m) })
	a, b := AnyV("a"), AnyV("b")
	w, err := jsonvalue.Import([]*jsonvalue.V{a, b})
	if err == nil {
		Assert("both values are in the array", Len(w) == 2)
		Assert("a value in a slice is copied", Elem(w, 0) != a && Elem(w, 1) != b)
	}
}
