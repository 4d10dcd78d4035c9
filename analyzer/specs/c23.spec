package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// SpecC23Less: a comparison of members is given keys with their own values
func SpecC23Less() {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	Assume(Count(v) > 1)
	WatchSorting()
	f := func(parent *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		Assert("the first key is compared with its own value", Has(v, k1) && Member(v, k1) == v1)
		Assert("the second key is compared with its own value", Has(v, k2) && Member(v, k2) == v2)
		return AnyBool("r")
	}
	Output(func(c byte) {}, func(s string) {}, func(s string) {}, func(m *jsonvalue.V, err error) {})
	v.Marshal(withOmit(opt(), AnyBool("o")), jsonvalue.OptKeySequenceWithLessFunc(f))
}

// written checks that an arbitrary member q of v is written once, with its own value
func written(o jsonvalue.Opt, order jsonvalue.Option) {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	q := AnyString("q")
	Assume(Has(v, q) && Count(v) > 0)
	null := Kind(Member(v, q)) == jsonvalue.Null
	omitted := o.OmitNull && null
	seen := false
	WatchKey(q, null)
	key := ""
	Output(func(c byte) {}, func(s string) {
		key = s
	}, func(s string) {}, func(m *jsonvalue.V, err error) {
		Assert("every key has its own value", Has(v, key) && Member(v, key) == m)
		if key == q {
			Assert("a member is written once", !seen)
			seen = true
		}
	})
	_, err := v.Marshal(o, order)
	if err == nil {
		Assert("every member is written, unless it is omitted", seen == !omitted)
	}
}

func SpecC23ByLess()       { written(withOmit(opt(), false), less()) }
func SpecC23ByLessOmit()   { written(withOmit(opt(), true), less()) }
func SpecC23BySeq()        { written(withOmit(opt(), false), seq()) }
func SpecC23BySeqOmit()    { written(withOmit(opt(), true), seq()) }
func SpecC23BySetSeq()     { written(withOmit(opt(), false), jsonvalue.OptSetSequence()) }
func SpecC23BySetSeqOmit() { written(withOmit(opt(), true), jsonvalue.OptSetSequence()) }
func SpecC23ByString()     { written(withOmit(opt(), false), jsonvalue.OptDefaultStringSequence()) }

// SpecC23Array: sorting an array permutes its elements
func SpecC23Array() {
	NoPanic()
	v := array("v")
	WatchSorting()
	v.SortArray(func(a, b *jsonvalue.V) bool {
		i, j := SortPair()
		Assert("the comparison is given the two elements in question", a == Elem(v, i) && b == Elem(v, j))
		return AnyBool("r")
	})
	AssertPermuted("sorting an array only permutes its elements", v)
}

// SpecC23Nothing: nothing else is sorted
func SpecC23Nothing() {
	NoPanic()
	v := AnyV("v")
	Assume(Kind(v) != jsonvalue.Array)
	v.SortArray(func(a, b *jsonvalue.V) bool {
		Unreachable("nothing is compared in a value which is no array")
		return false
	})
	AssertUntouched("a value which is no array is not changed")
	w := array("w")
	w.SortArray(nil)
	AssertUntouched("without a comparison nothing is changed")
}

// SpecC23Again: after sorting, the array is a usable array
func SpecC23Again() {
	NoPanic()
	v := array("v")
	i := AnyInt("i")
	n := Len(v)
	Assume(0 <= i && i < n)
	v.SortArray(func(a, b *jsonvalue.V) bool { return AnyBool("r") })
	Assert("sorting keeps the number of elements", Len(v) == n && v.Len() == n)
	x, err := v.Get(i)
	Assert("every element can be read after sorting", err == nil && x == Elem(v, i))
}
