package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// missing: nil or uninitialised
func missing(v *jsonvalue.V) bool {
	return v == nil || Kind(v) == jsonvalue.NotExist
}

// anyPath is a path of one, two or three steps which are strings or numbers.
func anyPath() (interface{}, []interface{}) {
	var p []interface{}
	n := AnyInt("steps")
	Assume(1 <= n && n <= 3)
	if AnyBool("s0") {
		p = append(p, AnyString("k0"))
	} else {
		p = append(p, AnyInt("i0"))
	}
	if n >= 2 {
		if AnyBool("s1") {
			p = append(p, AnyString("k1"))
		} else {
			p = append(p, AnyInt("i1"))
		}
	}
	if n >= 3 {
		if AnyBool("s2") {
			p = append(p, AnyString("k2"))
		} else {
			p = append(p, AnyInt("i2"))
		}
	}
	return p[0], p[1:]
}

// SpecC13Set: setting
func SpecC13Set() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	p, q := anyPath()
	got, err := v.Set(c).At(p, q...)
	Assert("setting something missing, or in something missing, is an error", err != nil && got != nil)
	AssertUntouched("nothing changes")
}

// SpecC13Before: inserting
func SpecC13Before() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	p, q := anyPath()
	got, err := v.Insert(c).Before(p, q...)
	Assert("inserting something missing, or in something missing, is an error", err != nil && got != nil)
	AssertUntouched("nothing changes")
}

// SpecC13After: inserting
func SpecC13After() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	p, q := anyPath()
	got, err := v.Insert(c).After(p, q...)
	Assert("inserting something missing, or in something missing, is an error", err != nil && got != nil)
	AssertUntouched("nothing changes")
}

// SpecC13Beginning: appending
func SpecC13Beginning() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	var err error
	var got *jsonvalue.V
	if AnyBool("here") {
		got, err = v.Append(c).InTheBeginning()
	} else {
		p, q := anyPath()
		got, err = v.Append(c).InTheBeginning(append([]interface{}{p}, q...)...)
	}
	Assert("appending something missing, or to something missing, is an error", err != nil && got != nil)
	AssertUntouched("nothing changes")
}

// SpecC13End: appending
func SpecC13End() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	var err error
	var got *jsonvalue.V
	if AnyBool("here") {
		got, err = v.Append(c).InTheEnd()
	} else {
		p, q := anyPath()
		got, err = v.Append(c).InTheEnd(append([]interface{}{p}, q...)...)
	}
	Assert("appending something missing, or to something missing, is an error", err != nil && got != nil)
	AssertUntouched("nothing changes")
}

// SpecC13AtSet: the form v.At(path).Set(c)
func SpecC13AtSet() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	p, q := anyPath()
	v.At(p, q...).Set(c)
	AssertUntouched("nothing changes")
}

// SpecC13Must: the variants without an error result
func SpecC13Must() {
	v, c := AnyRawV("v"), AnyRawV("c")
	Assume(missing(v) || missing(c))
	p := AnyString("k")
	i := AnyInt("i")
	switch AnyInt("op") {
	case 0:
		v.MustSet(c).At(p)
	case 1:
		v.MustSet(c).At(i)
	case 2:
		v.MustInsert(c).Before(i)
	case 3:
		v.MustInsert(c).After(i)
	case 4:
		v.MustAppend(c).InTheBeginning()
	case 5:
		v.MustAppend(c).InTheEnd()
	case 6:
		v.MustAppend(c).InTheBeginning(p)
	case 7:
		v.MustAppend(c).InTheEnd(p)
	}
	AssertUntouched("nothing changes")
}

// SpecC13Created: what is created on the way is initialised
func SpecC13Created() {
	v := AnyV("v")
	c := AnyV("c")
	key, sub := AnyString("key"), AnyString("sub")
	Assume(Kind(v) == jsonvalue.Object)
	Assume(!Has(v, key))
	if AnyBool("object") {
		_, err := v.Set(c).At(key, sub)
		Assert("an object is created", err == nil && Has(v, key) && Kind(Member(v, key)) == jsonvalue.Object && Member(Member(v, key), sub) == c)
		return
	}
	_, err := v.Set(c).At(key, 0)
	Assert("an array is created", err == nil && Has(v, key) && Kind(Member(v, key)) == jsonvalue.Array && Elem(Member(v, key), 0) == c)
}

// SpecC13Nil: a nil interface stands for null
func SpecC13Nil() {
	v := AnyV("v")
	key := AnyString("key")
	if Kind(v) == jsonvalue.Object {
		_, err := v.Set(nil).At(key)
		Assert("nil sets null", err == nil && Kind(Member(v, key)) == jsonvalue.Null)
		return
	}
	Assume(Kind(v) == jsonvalue.Array)
	n := Len(v)
	switch {
	case AnyBool("append"):
		_, err := v.Append(nil).InTheEnd()
		Assert("nil appends null", err == nil && Len(v) == n+1 && Kind(Elem(v, n)) == jsonvalue.Null)
	case AnyBool("prepend"):
		_, err := v.Append(nil).InTheBeginning()
		Assert("nil inserts null in front", err == nil && Len(v) == n+1 && Kind(Elem(v, 0)) == jsonvalue.Null)
	case AnyBool("set"):
		Assume(n > 0)
		_, err := v.Set(nil).At(0)
		Assert("nil sets a null element", err == nil && Len(v) == n && Kind(Elem(v, 0)) == jsonvalue.Null)
	default:
		Assume(n > 0)
		_, err := v.Insert(nil).Before(0)
		Assert("nil inserts null", err == nil && Len(v) == n+1 && Kind(Elem(v, 0)) == jsonvalue.Null)
	}
}
