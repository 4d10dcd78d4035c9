package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func array(name string) (*jsonvalue.V, int) {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Array)
	return v, Len(v)
}

// position of an index, or -1
func position(i, n int) int {
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return -1
	}
	return i
}

// SpecC12Set: v.Set(c).At(i)
func SpecC12Set() {
	v, n := array("v")
	c := AnyV("c")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	got, err := v.Set(c).At(i)
	p := position(i, n)
	if i == n {
		Assert("setting at the length appends", err == nil && Len(v) == n+1 && Elem(v, n) == c && Elem(v, k) == old && got == c)
		return
	}
	if p < 0 {
		Assert("setting out of range is an error", err != nil)
		AssertUntouched("setting out of range changes nothing")
		return
	}
	Assert("setting in range succeeds", err == nil && got == c)
	Assert("setting keeps the length", Len(v) == n)
	Assert("setting stores at the position", Elem(v, p) == c)
	if k != p {
		Assert("setting keeps the others", Elem(v, k) == old)
	}
}

// change of the neighbours: k is an old position, old its element, and they are now at
func moved(v *jsonvalue.V, k, at int, old *jsonvalue.V, id string) {
	if k >= at {
		Assert(id, Elem(v, k+1) == old)
	} else {
		Assert(id, Elem(v, k) == old)
	}
}

// SpecC12Before: v.Insert(c).Before(i)
func SpecC12Before() {
	v, n := array("v")
	c := AnyV("c")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	got, err := v.Insert(c).Before(i)
	p := position(i, n)
	if p < 0 {
		Assert("inserting before an index out of range is an error", err != nil)
		AssertUntouched("inserting out of range changes nothing")
		return
	}
	Assert("inserting before an index in range succeeds", err == nil && got == c)
	Assert("inserting makes the array one longer", Len(v) == n+1)
	Assert("the new element is at the position", Elem(v, p) == c)
	moved(v, k, p, old, "the others keep their order")
}

// SpecC12After: v.Insert(c).After(i)
func SpecC12After() {
	v, n := array("v")
	c := AnyV("c")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	got, err := v.Insert(c).After(i)
	p := position(i, n)
	if p < 0 {
		Assert("inserting after an index out of range is an error", err != nil)
		AssertUntouched("inserting out of range changes nothing")
		return
	}
	Assert("inserting after an index in range succeeds", err == nil && got == c)
	Assert("inserting makes the array one longer", Len(v) == n+1)
	Assert("the new element follows the position", Elem(v, p+1) == c)
	moved(v, k, p+1, old, "the others keep their order")
}

// SpecC12Beginning: v.Append(c).InTheBeginning()
func SpecC12Beginning() {
	v, n := array("v")
	c := AnyV("c")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	got, err := v.Append(c).InTheBeginning()
	Assert("appending succeeds", err == nil && got == c)
	Assert("appending makes the array one longer", Len(v) == n+1)
	Assert("the new element is the first", Elem(v, 0) == c)
	Assert("the others move by one", Elem(v, k+1) == old)
}

// SpecC12BeginningEmpty: an empty array
func SpecC12BeginningEmpty() {
	v, n := array("v")
	c := AnyV("c")
	Assume(n == 0)
	got, err := v.Append(c).InTheBeginning()
	Assert("appending succeeds", err == nil && got == c)
	Assert("the new element is the only one", Len(v) == 1 && Elem(v, 0) == c)
}

// SpecC12End: v.Append(c).InTheEnd()
func SpecC12End() {
	v, n := array("v")
	c := AnyV("c")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	got, err := v.Append(c).InTheEnd()
	Assert("appending succeeds", err == nil && got == c)
	Assert("appending makes the array one longer", Len(v) == n+1)
	Assert("the new element is the last", Elem(v, n) == c)
	Assert("the others stay", Elem(v, k) == old)
}

// SpecC12EndEmpty: an empty array
func SpecC12EndEmpty() {
	v, n := array("v")
	c := AnyV("c")
	Assume(n == 0)
	got, err := v.Append(c).InTheEnd()
	Assert("appending succeeds", err == nil && got == c)
	Assert("the new element is the only one", Len(v) == 1 && Elem(v, 0) == c)
}

// SpecC12Delete: v.Delete(i)
func SpecC12Delete() {
	v, n := array("v")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(v, k)
	err := v.Delete(i)
	p := position(i, n)
	if p < 0 {
		Assert("deleting out of range is an error", err != nil)
		AssertUntouched("deleting out of range changes nothing")
		return
	}
	Assert("deleting in range succeeds", err == nil)
	Assert("deleting makes the array one shorter", Len(v) == n-1)
	if k < p {
		Assert("deleting keeps those in front", Elem(v, k) == old)
	}
	if k > p {
		Assert("deleting moves those behind by one", Elem(v, k-1) == old)
	}
}

// SpecC12Empty: in an empty array nothing is in range
func SpecC12Empty() {
	v, n := array("v")
	c := AnyV("c")
	i := AnyInt("i")
	Assume(n == 0)
	_, e1 := v.Insert(c).Before(i)
	_, e2 := v.Insert(c).After(i)
	e3 := v.Delete(i)
	Assert("nothing is in range", e1 != nil && e2 != nil && e3 != nil)
	AssertUntouched("nothing changes")
	_, e4 := v.Set(c).At(i)
	Assert("only setting at the length succeeds", (e4 == nil) == (i == 0))
}

// below: an array which is a member of the object v
func below(v *jsonvalue.V, key string) (*jsonvalue.V, int) {
	Assume(Kind(v) == jsonvalue.Object)
	Assume(Has(v, key))
	a := Member(v, key)
	Assume(Kind(a) == jsonvalue.Array)
	return a, Len(a)
}

// SpecC12SetBelow: v.Set(c).At(key, i)
func SpecC12SetBelow() {
	v := AnyV("v")
	key := AnyString("key")
	a, n := below(v, key)
	c := AnyV("c")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(a, k)
	got, err := v.Set(c).At(key, i)
	Assert("the array stays where it is", Member(v, key) == a)
	p := position(i, n)
	if i == n {
		Assert("setting at the length appends", err == nil && Len(a) == n+1 && Elem(a, n) == c && Elem(a, k) == old && got == c)
		return
	}
	if p < 0 {
		Assert("setting out of range is an error", err != nil)
		AssertUntouched("setting out of range changes nothing")
		return
	}
	Assert("setting in range succeeds", err == nil && got == c)
	Assert("setting keeps the length and stores at the position", Len(a) == n && Elem(a, p) == c)
	if k != p {
		Assert("setting keeps the others", Elem(a, k) == old)
	}
}

// SpecC12InsertBelow: v.Insert(c).Before(key, i), v.Insert(c).After(key, i)
func SpecC12InsertBelow() {
	v := AnyV("v")
	key := AnyString("key")
	a, n := below(v, key)
	c := AnyV("c")
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(a, k)
	p := position(i, n)
	var err error
	if AnyBool("after") {
		_, err = v.Insert(c).After(key, i)
		if p >= 0 {
			p++
		}
	} else {
		_, err = v.Insert(c).Before(key, i)
	}
	if p < 0 {
		Assert("inserting out of range is an error", err != nil)
		AssertUntouched("inserting out of range changes nothing")
		return
	}
	Assert("inserting in range succeeds", err == nil)
	Assert("the array stays where it is and becomes one longer", Member(v, key) == a && Len(a) == n+1)
	Assert("the new element is at the position", Elem(a, p) == c)
	moved(a, k, p, old, "the others keep their order")
}

// SpecC12AppendBelow: v.Append(c).InTheBeginning(key), v.Append(c).InTheEnd(key)
func SpecC12AppendBelow() {
	v := AnyV("v")
	key := AnyString("key")
	a, n := below(v, key)
	c := AnyV("c")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(a, k)
	var err error
	p := 0
	if AnyBool("end") {
		_, err = v.Append(c).InTheEnd(key)
		p = n
	} else {
		_, err = v.Append(c).InTheBeginning(key)
	}
	Assert("appending succeeds", err == nil)
	Assert("the array stays where it is and becomes one longer", Member(v, key) == a && Len(a) == n+1)
	Assert("the new element is at its end", Elem(a, p) == c)
	moved(a, k, p, old, "the others keep their order")
}

// SpecC12DeleteBelow: v.Delete(key, i)
func SpecC12DeleteBelow() {
	v := AnyV("v")
	key := AnyString("key")
	a, n := below(v, key)
	i := AnyInt("i")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	old := Elem(a, k)
	err := v.Delete(key, i)
	p := position(i, n)
	if p < 0 {
		Assert("deleting out of range is an error", err != nil)
		AssertUntouched("deleting out of range changes nothing")
		return
	}
	Assert("deleting in range succeeds", err == nil)
	Assert("the array stays where it is and becomes one shorter", Member(v, key) == a && Len(a) == n-1)
	if k < p {
		Assert("deleting keeps those in front", Elem(a, k) == old)
	}
	if k > p {
		Assert("deleting moves those behind by one", Elem(a, k-1) == old)
	}
}

// SpecC12Nested: an array in an array, the outer position given by a negative or positive index
func SpecC12Nested() {
	v, m := array("v")
	o := AnyInt("o")
	q := position(o, m)
	Assume(q >= 0)
	a := Elem(v, q)
	Assume(Kind(a) == jsonvalue.Array)
	Assume(a != v)
	n := Len(a)
	c := AnyV("c")
	i := AnyInt("i")
	p := position(i, n)
	Assume(p >= 0)
	switch {
	case AnyBool("set"):
		_, err := v.Set(c).At(o, i)
		Assert("setting stores at the position", err == nil && Len(a) == n && Elem(a, p) == c)
	case AnyBool("before"):
		_, err := v.Insert(c).Before(o, i)
		Assert("inserting before stores at the position", err == nil && Len(a) == n+1 && Elem(a, p) == c)
	case AnyBool("after"):
		_, err := v.Insert(c).After(o, i)
		Assert("inserting after stores behind the position", err == nil && Len(a) == n+1 && Elem(a, p+1) == c)
	default:
		err := v.Delete(o, i)
		Assert("deleting makes the inner array one shorter", err == nil && Len(a) == n-1)
	}
	Assert("the outer array is unchanged", Len(v) == m && Elem(v, q) == a)
}

// SpecC12IndexTypes: an index of any integer type
func SpecC12IndexTypes() {
	v, n := array("v")
	c := AnyV("c")
	var i interface{}
	var p int
	switch AnyInt("type") {
	case 0:
		x := AnyInt8("i8")
		i, p = x, position(int(x), n)
	case 1:
		x := AnyInt16("i16")
		i, p = x, position(int(x), n)
	case 2:
		x := AnyInt32("i32")
		i, p = x, position(int(x), n)
	case 3:
		x := AnyInt64("i64")
		i, p = x, position(int(x), n)
	case 4:
		x := AnyUint8("u8")
		i, p = x, position(int(x), n)
	case 5:
		x := AnyUint16("u16")
		i, p = x, position(int(x), n)
	case 6:
		x := AnyUint32("u32")
		i, p = x, position(int(x), n)
	case 7:
		x := AnyUint64("u64")
		i, p = x, position(int(x), n)
		if x >= uint64(n) {
			p = -1
		}
	default:
		x := AnyUint("u")
		i, p = x, position(int(x), n)
		if x >= uint(n) {
			p = -1
		}
	}
	got, err := v.Insert(c).Before(i)
	if p < 0 {
		Assert("out of range is an error", err != nil)
		AssertUntouched("out of range changes nothing")
		return
	}
	Assert("the index is taken as it is", err == nil && got == c && Len(v) == n+1 && Elem(v, p) == c)
}

// SpecC12PathList: a path given as one slice
func SpecC12PathList() {
	v := AnyV("v")
	key := AnyString("key")
	a, n := below(v, key)
	c := AnyV("c")
	i := AnyInt("i")
	p := position(i, n)
	Assume(p >= 0)
	path := []interface{}{key, i}
	switch {
	case AnyBool("set"):
		_, err := v.Set(c).At(path)
		Assert("setting stores at the position", err == nil && Len(a) == n && Elem(a, p) == c)
	case AnyBool("before"):
		_, err := v.Insert(c).Before(path)
		Assert("inserting before stores at the position", err == nil && Len(a) == n+1 && Elem(a, p) == c)
	case AnyBool("after"):
		_, err := v.Insert(c).After(path)
		Assert("inserting after stores behind the position", err == nil && Len(a) == n+1 && Elem(a, p+1) == c)
	case AnyBool("end"):
		_, err := v.Append(c).InTheEnd([]interface{}{key})
		Assert("appending stores at the end", err == nil && Len(a) == n+1 && Elem(a, n) == c)
	case AnyBool("beginning"):
		_, err := v.Append(c).InTheBeginning([]string{key})
		Assert("appending stores at the beginning", err == nil && Len(a) == n+1 && Elem(a, 0) == c)
	default:
		err := v.Delete(path)
		Assert("deleting makes the array one shorter", err == nil && Len(a) == n-1)
	}
}

// SpecC12Indices: a path given as a slice of numbers
func SpecC12Indices() {
	v, m := array("v")
	o := AnyInt("o")
	q := position(o, m)
	Assume(q >= 0)
	a := Elem(v, q)
	Assume(Kind(a) == jsonvalue.Array)
	Assume(a != v)
	n := Len(a)
	c := AnyV("c")
	i := AnyInt("i")
	p := position(i, n)
	Assume(p >= 0)
	_, err := v.Insert(c).Before([]int{o, i})
	Assert("inserting before stores at the position", err == nil && Len(a) == n+1 && Elem(a, p) == c)
}
