// Written by tools/gen_c17.py.
package spec

import (
	"errors"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// anyPath is a path of one or two steps which are strings or numbers.
func anyPath() (interface{}, []interface{}) {
	var p interface{} = AnyInt("i0")
	if AnyBool("s0") {
		p = AnyString("k0")
	}
	if AnyBool("one") {
		return p, nil
	}
	var q interface{} = AnyInt("i1")
	if AnyBool("s1") {
		q = AnyString("k1")
	}
	return p, []interface{}{q}
}

// getter is the value or its case-insensitive form.
func getter(v *jsonvalue.V) jsonvalue.Caseless {
	if AnyBool("caseless") {
		return v.Caseless()
	}
	return v
}

// addressed is a member which the given path leads to, with the path.
func addressed() (*jsonvalue.V, *jsonvalue.V, interface{}) {
	v := AnyV("v")
	if AnyBool("object") {
		Assume(Kind(v) == jsonvalue.Object)
		key := AnyString("key")
		Assume(Has(v, key))
		return v, Member(v, key), key
	}
	Assume(Kind(v) == jsonvalue.Array)
	i := AnyInt("i")
	Assume(0 <= i && i < Len(v))
	return v, Elem(v, i), i
}

// SpecC17GetObject: a step into an object
func SpecC17GetObject() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Object)
	if AnyBool("string") {
		key := AnyString("key")
		m, err := v.Get(key)
		if Has(v, key) {
			Assert("a member is found", err == nil && m == Member(v, key))
			Assert("MustGet finds it too", v.MustGet(key) == m)
			c, err := v.Caseless().Get(key)
			Assert("the case-insensitive lookup prefers the exact key", err == nil && c == m)
		} else {
			Assert("a missing member is an error", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
			Assert("MustGet gives an empty value", Kind(v.MustGet(key)) == jsonvalue.NotExist)
		}
	} else {
		m, err := v.Get(AnyInt("i"))
		Assert("an object has no index", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
	}
}

// SpecC17GetArray: a step into an array
func SpecC17GetArray() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	n := Len(v)
	if AnyBool("string") {
		m, err := v.Get(AnyString("key"))
		Assert("an array has no key", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
	} else {
		i := AnyInt("i")
		g := getter(v)
		m, err := g.Get(i)
		if 0 <= i && i < n {
			Assert("an index counts from the start", err == nil && m == Elem(v, i))
		} else if -n <= i && i < 0 {
			Assert("a negative index counts from the end", err == nil && m == Elem(v, n+i))
		} else {
			Assert("an index out of range is an error", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
		}
	}
}

// SpecC17GetOther: a step into anything else
func SpecC17GetOther() {
	v := AnyRawV("v")
	Assume(v != nil && Kind(v) != jsonvalue.Object && Kind(v) != jsonvalue.Array)
	p, q := anyPath()
	m, err := getter(v).Get(p, q...)
	Assert("a value without members has none", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
}

// SpecC17GetTwo: a path of two steps is a step after a step
func SpecC17GetTwo() {
	v, m, k := addressed()
	key := AnyString("second")
	want, err1 := m.Get(key)
	got, err2 := v.Get(k, key)
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("the second step continues at the first", got == want)
	}
}

// SpecC17GetTwoIndex: a path of two steps is a step after a step
func SpecC17GetTwoIndex() {
	v, m, k := addressed()
	i := AnyInt("second")
	want, err1 := m.Get(i)
	got, err2 := v.Get(k, i)
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("the second step continues at the first", got == want)
	}
}

// SpecC17GetSlice: a path given as one slice
func SpecC17GetSlice() {
	v := AnyV("v")
	k, i := AnyString("k"), AnyInt("i")
	want, err1 := v.Get(k, i)
	got, err2 := v.Get([]interface{}{k, i})
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("a slice is a path", got == want)
	}
}

// SpecC17IntMissing: GetInt of a member that does not exist
func SpecC17IntMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetInt(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Int: GetInt of every kind of member
func SpecC17Int() {
	v, m, k := addressed()
	x, err := getter(v).GetInt(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Int()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Int() == 0)
	}
}

// SpecC17UintMissing: GetUint of a member that does not exist
func SpecC17UintMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetUint(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Uint: GetUint of every kind of member
func SpecC17Uint() {
	v, m, k := addressed()
	x, err := getter(v).GetUint(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Uint()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Uint() == 0)
	}
}

// SpecC17Int64Missing: GetInt64 of a member that does not exist
func SpecC17Int64Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetInt64(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Int64: GetInt64 of every kind of member
func SpecC17Int64() {
	v, m, k := addressed()
	x, err := getter(v).GetInt64(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Int64()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Int64() == 0)
	}
}

// SpecC17Uint64Missing: GetUint64 of a member that does not exist
func SpecC17Uint64Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetUint64(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Uint64: GetUint64 of every kind of member
func SpecC17Uint64() {
	v, m, k := addressed()
	x, err := getter(v).GetUint64(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Uint64()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Uint64() == 0)
	}
}

// SpecC17Int32Missing: GetInt32 of a member that does not exist
func SpecC17Int32Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetInt32(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Int32: GetInt32 of every kind of member
func SpecC17Int32() {
	v, m, k := addressed()
	x, err := getter(v).GetInt32(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Int32()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Int32() == 0)
	}
}

// SpecC17Uint32Missing: GetUint32 of a member that does not exist
func SpecC17Uint32Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetUint32(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Uint32: GetUint32 of every kind of member
func SpecC17Uint32() {
	v, m, k := addressed()
	x, err := getter(v).GetUint32(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Uint32()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Uint32() == 0)
	}
}

// SpecC17Float64Missing: GetFloat64 of a member that does not exist
func SpecC17Float64Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetFloat64(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Float64: GetFloat64 of every kind of member
func SpecC17Float64() {
	v, m, k := addressed()
	x, err := getter(v).GetFloat64(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Float64()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Float64() == 0)
	}
}

// SpecC17Float32Missing: GetFloat32 of a member that does not exist
func SpecC17Float32Missing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetFloat32(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
}

// SpecC17Float32: GetFloat32 of every kind of member
func SpecC17Float32() {
	v, m, k := addressed()
	x, err := getter(v).GetFloat32(k)
	switch Kind(m) {
	case jsonvalue.Number:
		y := m.Float32()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.Float32() == 0)
	}
}

// SpecC17BoolMissing: GetBool of a member that does not exist
func SpecC17BoolMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetBool(p, q...)
	Assert("nothing there is an error, and zero", err != nil && !x)
}

// SpecC17StringMissing: GetString of a member that does not exist
func SpecC17StringMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetString(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == "")
}

// SpecC17BytesMissing: GetBytes of a member that does not exist
func SpecC17BytesMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetBytes(p, q...)
	Assert("nothing there is an error, and zero", err != nil && len(x) == 0)
}

// SpecC17Bool: GetBool of every kind of member
func SpecC17Bool() {
	v, m, k := addressed()
	x, err := getter(v).GetBool(k)
	Assert("it succeeds exactly for a boolean", (err == nil) == (Kind(m) == jsonvalue.Boolean))
	Assert("it returns what the accessor returns", x == m.Bool())
	switch Kind(m) {
	case jsonvalue.Boolean, jsonvalue.Number, jsonvalue.String:
	default:
		Assert("any other type gives false", !x)
	}
}

// SpecC17String: GetString of every kind of member
func SpecC17String() {
	v, m, k := addressed()
	x, err := getter(v).GetString(k)
	if Kind(m) == jsonvalue.String {
		Assert("a string is returned as its accessor returns it", err == nil && x == m.String())
	} else {
		Assert("any other type is an error, and empty", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == "")
	}
}

// SpecC17Bytes: GetBytes of every kind of member
func SpecC17Bytes() {
	v, m, k := addressed()
	x, err := getter(v).GetBytes(k)
	if Kind(m) != jsonvalue.String {
		Assert("any other type is an error, and empty", errors.Is(err, jsonvalue.ErrTypeNotMatch) && len(x) == 0 && len(m.Bytes()) == 0)
	} else if err == nil {
		Assert("it returns what the accessor returns", string(x) == string(m.Bytes()))
	} else {
		Assert("a text that is not base64 gives nothing", len(x) == 0 && len(m.Bytes()) == 0)
	}
}

// SpecC17Null: GetNull of every kind of member
func SpecC17Null() {
	v, m, k := addressed()
	err := getter(v).GetNull(k)
	Assert("it succeeds exactly for null", (err == nil) == (Kind(m) == jsonvalue.Null))
	Assert("it tells a wrong type", err == nil || errors.Is(err, jsonvalue.ErrTypeNotMatch))
}

// SpecC17NullMissing: GetNull of a member that does not exist
func SpecC17NullMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	err = v.GetNull(p, q...)
	Assert("nothing there is an error", err != nil)
}

// SpecC17Objects: GetObject of every kind of member
func SpecC17Objects() {
	v, m, k := addressed()
	x, err := getter(v).GetObject(k)
	if Kind(m) == jsonvalue.Object {
		Assert("it is returned itself", err == nil && x == m)
	} else {
		Assert("any other type is an error", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x != nil && Kind(x) == jsonvalue.NotExist)
	}
}

// SpecC17ObjectMissing: GetObject of a member that does not exist
func SpecC17ObjectMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetObject(p, q...)
	Assert("nothing there is an error", err != nil && x != nil && Kind(x) == jsonvalue.NotExist)
}

// SpecC17Arrays: GetArray of every kind of member
func SpecC17Arrays() {
	v, m, k := addressed()
	x, err := getter(v).GetArray(k)
	if Kind(m) == jsonvalue.Array {
		Assert("it is returned itself", err == nil && x == m)
	} else {
		Assert("any other type is an error", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x != nil && Kind(x) == jsonvalue.NotExist)
	}
}

// SpecC17ArrayMissing: GetArray of a member that does not exist
func SpecC17ArrayMissing() {
	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
	x, err := v.GetArray(p, q...)
	Assert("nothing there is an error", err != nil && x != nil && Kind(x) == jsonvalue.NotExist)
}

// SpecC17Spelled1: numbers spelled in a string
func SpecC17Spelled1() {
	var text [1]byte

	x := int64(0)
	for i := 0; i < 1; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 1 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	v := jsonvalue.NewObject()
	v.MustSetString(string(text[:])).At("k")
	vInt, errInt := v.GetInt("k")
	Assert("GetInt returns the number spelled, with an error", vInt == int(x) && errors.Is(errInt, jsonvalue.ErrTypeNotMatch))
	vUint, errUint := v.GetUint("k")
	Assert("GetUint returns the number spelled, with an error", vUint == uint(x) && errors.Is(errUint, jsonvalue.ErrTypeNotMatch))
	vInt64, errInt64 := v.GetInt64("k")
	Assert("GetInt64 returns the number spelled, with an error", vInt64 == int64(x) && errors.Is(errInt64, jsonvalue.ErrTypeNotMatch))
	vUint64, errUint64 := v.GetUint64("k")
	Assert("GetUint64 returns the number spelled, with an error", vUint64 == uint64(x) && errors.Is(errUint64, jsonvalue.ErrTypeNotMatch))
	vInt32, errInt32 := v.GetInt32("k")
	Assert("GetInt32 returns the number spelled, with an error", vInt32 == int32(x) && errors.Is(errInt32, jsonvalue.ErrTypeNotMatch))
	vUint32, errUint32 := v.GetUint32("k")
	Assert("GetUint32 returns the number spelled, with an error", vUint32 == uint32(x) && errors.Is(errUint32, jsonvalue.ErrTypeNotMatch))
	vFloat64, errFloat64 := v.GetFloat64("k")
	Assert("GetFloat64 returns the number spelled, with an error", vFloat64 == float64(x) && errors.Is(errFloat64, jsonvalue.ErrTypeNotMatch))
	vFloat32, errFloat32 := v.GetFloat32("k")
	Assert("GetFloat32 returns the number spelled, with an error", vFloat32 == float32(x) && errors.Is(errFloat32, jsonvalue.ErrTypeNotMatch))
}

// SpecC17Spelled3: numbers spelled in a string
func SpecC17Spelled3() {
	var text [3]byte

	x := int64(0)
	for i := 0; i < 3; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 3 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	v := jsonvalue.NewObject()
	v.MustSetString(string(text[:])).At("k")
	vInt, errInt := v.GetInt("k")
	Assert("GetInt returns the number spelled, with an error", vInt == int(x) && errors.Is(errInt, jsonvalue.ErrTypeNotMatch))
	vUint, errUint := v.GetUint("k")
	Assert("GetUint returns the number spelled, with an error", vUint == uint(x) && errors.Is(errUint, jsonvalue.ErrTypeNotMatch))
	vInt64, errInt64 := v.GetInt64("k")
	Assert("GetInt64 returns the number spelled, with an error", vInt64 == int64(x) && errors.Is(errInt64, jsonvalue.ErrTypeNotMatch))
	vUint64, errUint64 := v.GetUint64("k")
	Assert("GetUint64 returns the number spelled, with an error", vUint64 == uint64(x) && errors.Is(errUint64, jsonvalue.ErrTypeNotMatch))
	vInt32, errInt32 := v.GetInt32("k")
	Assert("GetInt32 returns the number spelled, with an error", vInt32 == int32(x) && errors.Is(errInt32, jsonvalue.ErrTypeNotMatch))
	vUint32, errUint32 := v.GetUint32("k")
	Assert("GetUint32 returns the number spelled, with an error", vUint32 == uint32(x) && errors.Is(errUint32, jsonvalue.ErrTypeNotMatch))
	vFloat64, errFloat64 := v.GetFloat64("k")
	Assert("GetFloat64 returns the number spelled, with an error", vFloat64 == float64(x) && errors.Is(errFloat64, jsonvalue.ErrTypeNotMatch))
	vFloat32, errFloat32 := v.GetFloat32("k")
	Assert("GetFloat32 returns the number spelled, with an error", vFloat32 == float32(x) && errors.Is(errFloat32, jsonvalue.ErrTypeNotMatch))
}

// SpecC17SpelledNegative3: numbers spelled in a string
func SpecC17SpelledNegative3() {
	var text [4]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 3; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 3 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	v := jsonvalue.NewObject()
	v.MustSetString(string(text[:])).At("k")
	vInt, errInt := v.GetInt("k")
	Assert("GetInt returns the number spelled, with an error", vInt == int(x) && errors.Is(errInt, jsonvalue.ErrTypeNotMatch))
	vUint, errUint := v.GetUint("k")
	Assert("GetUint returns the number spelled, with an error", vUint == uint(x) && errors.Is(errUint, jsonvalue.ErrTypeNotMatch))
	vInt64, errInt64 := v.GetInt64("k")
	Assert("GetInt64 returns the number spelled, with an error", vInt64 == int64(x) && errors.Is(errInt64, jsonvalue.ErrTypeNotMatch))
	vUint64, errUint64 := v.GetUint64("k")
	Assert("GetUint64 returns the number spelled, with an error", vUint64 == uint64(x) && errors.Is(errUint64, jsonvalue.ErrTypeNotMatch))
	vInt32, errInt32 := v.GetInt32("k")
	Assert("GetInt32 returns the number spelled, with an error", vInt32 == int32(x) && errors.Is(errInt32, jsonvalue.ErrTypeNotMatch))
	vUint32, errUint32 := v.GetUint32("k")
	Assert("GetUint32 returns the number spelled, with an error", vUint32 == uint32(x) && errors.Is(errUint32, jsonvalue.ErrTypeNotMatch))
	vFloat64, errFloat64 := v.GetFloat64("k")
	Assert("GetFloat64 returns the number spelled, with an error", vFloat64 == float64(x) && errors.Is(errFloat64, jsonvalue.ErrTypeNotMatch))
	vFloat32, errFloat32 := v.GetFloat32("k")
	Assert("GetFloat32 returns the number spelled, with an error", vFloat32 == float32(x) && errors.Is(errFloat32, jsonvalue.ErrTypeNotMatch))
}
