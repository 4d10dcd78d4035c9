package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func object(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Object)
	return v
}

// SpecC22Objects: every call gets a member with its own key, none after a stop, all if not stopped
func SpecC22Objects() {
	v := object("v")
	stop := AnyInt("stop")
	n := 0
	stopped := false
	v.RangeObjects(func(k string, m *jsonvalue.V) bool {
		Assert("the callback gets a key and its own member", Has(v, k) && Member(v, k) == m)
		Assert("the callback is not called after it stopped the iteration", !stopped)
		n++
		stopped = n == stop
		return !stopped
	})
	if stopped {
		Assert("the iteration stops where it was stopped", n == stop)
	} else {
		Assert("every member is visited", n == Count(v))
	}
}

// SpecC22ObjectsAll: an arbitrary member is visited
func SpecC22ObjectsAll() {
	v := object("v")
	q := AnyString("q")
	Assume(Has(v, q))
	seen := false
	v.RangeObjects(func(k string, m *jsonvalue.V) bool {
		if k == q {
			seen = true
		}
		return true
	})
	Assert("no member is left out", seen)
}

// SpecC22BySeq: by set sequence: every call gets a member with its own key, none after a stop, all if not stopped
func SpecC22BySeq() {
	v := object("v")
	stop := AnyInt("stop")
	n := 0
	stopped := false
	v.RangeObjectsBySetSequence(func(k string, m *jsonvalue.V) bool {
		Assert("in set order, the callback gets a key and its own member", Has(v, k) && Member(v, k) == m)
		Assert("in set order, the callback is not called after it stopped the iteration", !stopped)
		n++
		stopped = n == stop
		return !stopped
	})
	if stopped {
		Assert("in set order, the iteration stops where it was stopped", n == stop)
	} else {
		Assert("in set order, every member is visited", n == Count(v))
	}
}

// SpecC22BySeqAll: an arbitrary member is visited
func SpecC22BySeqAll() {
	v := object("v")
	q := AnyString("q")
	Assume(Has(v, q))
	seen := false
	v.RangeObjectsBySetSequence(func(k string, m *jsonvalue.V) bool {
		if k == q {
			seen = true
		}
		return true
	})
	Assert("in set order, no member is left out", seen)
}

// SpecC22Arrays: every call gets the element of its index, in order
func SpecC22Arrays() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	stop := AnyInt("stop")
	n := 0
	stopped := false
	v.RangeArray(func(i int, m *jsonvalue.V) bool {
		Assert("the callback gets the indexes in order", i == n && i < Len(v))
		Assert("the callback gets the element of the index", Elem(v, i) == m)
		Assert("the callback is not called after it stopped the iteration", !stopped)
		n++
		stopped = n == stop
		return !stopped
	})
	if stopped {
		Assert("the iteration stops where it was stopped", n == stop)
	} else {
		Assert("every element is visited", n == Len(v))
	}
}

// SpecC22MapForm: the map form
func SpecC22MapForm() {
	v := object("v")
	q := AnyString("q")
	r := v.ForRangeObj()
	Assert("the map holds as many entries as the object", len(r) == Count(v))
	m, ok := r[q]
	Assert("the map has exactly the object's keys", ok == Has(v, q))
	if ok {
		Assert("the map holds the members", m == Member(v, q))
	}
}

// SpecC22SliceForm: the slice form
func SpecC22SliceForm() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	r := v.ForRangeArr()
	Assert("the slice is as long as the array", len(r) == Len(v))
	i := AnyInt("i")
	Assume(0 <= i && i < Len(v))
	Assert("the slice holds the elements", r[i] == Elem(v, i))
	c := AnyV("c")
	r[i] = c
	AssertUntouched("the slice is a copy")
}

// SpecC22Other: values of other types
func SpecC22Other() {
	v := AnyV("v")
	if Kind(v) != jsonvalue.Object {
		v.RangeObjects(func(k string, m *jsonvalue.V) bool {
			Unreachable("a value of another type has no members")
			return true
		})
		v.RangeObjectsBySetSequence(func(k string, m *jsonvalue.V) bool {
			Unreachable("a value of another type has no members in order")
			return true
		})
		Assert("the map form of a value of another type is empty", len(v.ForRangeObj()) == 0)
	}
	if Kind(v) != jsonvalue.Array {
		v.RangeArray(func(i int, m *jsonvalue.V) bool {
			Unreachable("a value of another type has no elements")
			return true
		})
		Assert("the slice form of a value of another type is empty", len(v.ForRangeArr()) == 0)
	}
	Assert("the map form is never nil", v.ForRangeObj() != nil)
}

// SpecC22Nil: a nil callback
func SpecC22Nil() {
	v := AnyV("v")
	NoPanic()
	v.RangeObjects(nil)
	v.RangeObjectsBySetSequence(nil)
	v.RangeArray(nil)
	v.RangeObjects(func(k string, m *jsonvalue.V) bool { return AnyBool("more") })
	v.RangeArray(func(i int, m *jsonvalue.V) bool { return AnyBool("more") })
	Assert("a nil callback is never called", true)
	AssertUntouched("iteration changes nothing")
}
