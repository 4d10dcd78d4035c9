package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func number(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Number)
	Assume(HasText(v))
	return v
}

// SpecC18Trichotomy: exactly one of the three
func SpecC18Trichotomy() {
	NoPanic()
	a, b := number("a"), number("b")
	lt, eq, gt := a.LessThan(b), a.Equal(b), a.GreaterThan(b)
	Assert("one of less, equal and greater holds for two finite numbers", lt || eq || gt)
	Assert("no finite number is both less and greater", !(lt && gt))
	Assert("no finite number is both less and equal", !(lt && eq))
	Assert("no finite number is both greater and equal", !(gt && eq))
	Assert("less or equal agrees", a.LessThanOrEqual(b) == (lt || eq))
	Assert("greater or equal agrees", a.GreaterThanOrEqual(b) == (gt || eq))
}

// SpecC18Mirror: the operators seen from the other side
func SpecC18Mirror() {
	NoPanic()
	a, b := number("a"), number("b")
	Assert("a < b as b > a", a.LessThan(b) == b.GreaterThan(a))
	Assert("a <= b as b >= a", a.LessThanOrEqual(b) == b.GreaterThanOrEqual(a))
	Assert("a = b as b = a", a.Equal(b) == b.Equal(a))
	Assert("a = a", a.Equal(a))
	Assert("a <= a", a.LessThanOrEqual(a))
	Assert("a >= a", a.GreaterThanOrEqual(a))
}

// SpecC18Transitive: three numbers
func SpecC18Transitive() {
	NoPanic()
	a, b, c := number("a"), number("b"), number("c")
	Assume(a.LessThanOrEqual(b))
	Assume(b.LessThan(c))
	Assert("less is transitive", a.LessThan(c))
}

func SpecC18EqualTransitive() {
	NoPanic()
	a, b, c := number("a"), number("b"), number("c")
	Assume(a.Equal(b))
	Assume(b.Equal(c))
	Assert("equality of numbers is transitive", a.Equal(c))
}

// SpecC18Others: anything else than numbers, nil included
func SpecC18Others() {
	NoPanic()
	a, b := AnyRawV("a"), AnyRawV("b")
	if a != nil && b != nil {
		Assume(Kind(a) != jsonvalue.Number || Kind(b) != jsonvalue.Number)
	}
	Assert("nothing but numbers is less", !a.LessThan(b))
	Assert("nothing but numbers is less or equal", !a.LessThanOrEqual(b))
	Assert("nothing but numbers is greater", !a.GreaterThan(b))
	Assert("nothing but numbers is greater or equal", !a.GreaterThanOrEqual(b))
}

// SpecC18Types: different types are never equal
func SpecC18Types() {
	NoPanic()
	a, b := AnyRawV("a"), AnyRawV("b")
	if a == nil || b == nil {
		Assert("nil equals nothing", !a.Equal(b))
		return
	}
	Assume(Kind(a) != Kind(b))
	Recursion(func(x, y *jsonvalue.V) bool { return UFBool("equal", x, y) })
	Assert("values of different types are not equal", !a.Equal(b))
}

// SpecC18Uninitialised: an uninitialised value has no content
func SpecC18Uninitialised() {
	NoPanic()
	a, b := AnyRawV("a"), AnyRawV("b")
	Assume(a != nil && b != nil)
	Assume(Kind(a) == jsonvalue.NotExist)
	Assert("an uninitialised value equals nothing", !a.Equal(b) && !b.Equal(a))
}

func SpecC18Simple() {
	NoPanic()
	a, b := AnyV("a"), AnyV("b")
	Assume(Kind(a) == Kind(b))
	switch Kind(a) {
	case jsonvalue.String:
		Assert("strings are equal exactly if their texts are", a.Equal(b) == (a.String() == b.String()))
	case jsonvalue.Boolean:
		Assert("booleans are equal exactly if both are true or both are false", a.Equal(b) == (a.Bool() == b.Bool()))
	case jsonvalue.Null:
		Assert("nulls are equal", a.Equal(b))
	}
}

// SpecC18EqualNumbers: the same text
func SpecC18SameText() {
	NoPanic()
	x := AnyInt64("x")
	a, b := jsonvalue.NewInt64(x), jsonvalue.NewInt64(x)
	Assert("two numbers made from the same integer are equal", a.Equal(b) && a.LessThanOrEqual(b) && a.GreaterThanOrEqual(b))
}

// SpecC18Object: equal objects have the same keys with equal members
func SpecC18Object() {
	NoPanic()
	a, b := AnyV("a"), AnyV("b")
	Assume(Kind(a) == jsonvalue.Object)
	Assume(Kind(b) == jsonvalue.Object)
	q := AnyString("q")
	ha, hb := Has(a, q), Has(b, q)
	var ma, mb *jsonvalue.V
	if ha {
		ma = Member(a, q)
	}
	if hb {
		mb = Member(b, q)
	}
	if ha && !hb && Count(a) == Count(b) {
		// as many keys, and not this one: there is another one which a does not have
		p := AnyString("p")
		Assume(Has(b, p) && !Has(a, p))
	}
	found := false
	Recursion(func(x, y *jsonvalue.V) bool {
		r := UFBool("equal", x, y)
		if r && x == ma && y == mb {
			found = true
		}
		return r
	})
	if !a.Equal(b) {
		return
	}
	Assert("equal objects have the same number of members", Count(a) == Count(b))
	if ha {
		Assert("every key of the one is a key of an equal object", hb)
		Assert("the members of equal objects are equal", found || ma == mb)
	}
}

// SpecC18Array: equal arrays have equal elements in the same order
func SpecC18Array() {
	NoPanic()
	a, b := AnyV("a"), AnyV("b")
	Assume(Kind(a) == jsonvalue.Array)
	Assume(Kind(b) == jsonvalue.Array)
	q := AnyInt("q")
	Assume(0 <= q)
	var ma, mb *jsonvalue.V
	if q < Len(a) && q < Len(b) {
		ma, mb = Elem(a, q), Elem(b, q)
	}
	found := false
	Recursion(func(x, y *jsonvalue.V) bool {
		r := UFBool("equal", x, y)
		if r && x == ma && y == mb {
			found = true
		}
		return r
	})
	if !a.Equal(b) {
		return
	}
	Assert("equal arrays have the same length", Len(a) == Len(b))
	if q < Len(a) {
		Assert("the elements of equal arrays are equal", found || ma == mb)
	}
}

// SpecC18TwinObject: the same keys with equal members are enough
func SpecC18TwinObject() {
	NoPanic()
	a, b := AnyV("a"), AnyV("b")
	Assume(Kind(a) == jsonvalue.Object)
	Assume(Kind(b) == jsonvalue.Object)
	Assume(Count(a) == Count(b))
	Twin(a, b)
	Recursion(func(x, y *jsonvalue.V) bool { return UFBool("equal", x, y) })
	Assert("objects with the same keys and equal members are equal", a.Equal(b))
}

// SpecC18TwinArray: equal elements in the same order are enough
func SpecC18TwinArray() {
	NoPanic()
	a, b := AnyV("a"), AnyV("b")
	Assume(Kind(a) == jsonvalue.Array)
	Assume(Kind(b) == jsonvalue.Array)
	Assume(Len(a) == Len(b))
	Twin(a, b)
	Recursion(func(x, y *jsonvalue.V) bool { return UFBool("equal", x, y) })
	Assert("arrays with equal elements in the same order are equal", a.Equal(b))
}
