// Written by tools/gen_c19.py.
package spec

import (
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// SpecC19NewInt: a number made from any int
func SpecC19NewInt() {
	x := AnyInt("x")
	m := jsonvalue.NewInt(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (false))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatInt(int64(x), 10))
}

// SpecC19NewInt64: a number made from any int64
func SpecC19NewInt64() {
	x := AnyInt64("x")
	m := jsonvalue.NewInt64(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (false))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatInt(int64(x), 10))
}

// SpecC19NewInt32: a number made from any int32
func SpecC19NewInt32() {
	x := AnyInt32("x")
	m := jsonvalue.NewInt32(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (false))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatInt(int64(x), 10))
}

// SpecC19NewUint: a number made from any uint
func SpecC19NewUint() {
	x := AnyUint("x")
	m := jsonvalue.NewUint(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (false) && m.IsPositive() == !(false))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (uint64(x) > 1<<63-1))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatUint(uint64(x), 10))
}

// SpecC19NewUint64: a number made from any uint64
func SpecC19NewUint64() {
	x := AnyUint64("x")
	m := jsonvalue.NewUint64(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (false) && m.IsPositive() == !(false))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (uint64(x) > 1<<63-1))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatUint(uint64(x), 10))
}

// SpecC19NewUint32: a number made from any uint32
func SpecC19NewUint32() {
	x := AnyUint32("x")
	m := jsonvalue.NewUint32(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == (false) && m.IsPositive() == !(false))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == (uint64(x) > 1<<63-1))
	Assert("Int converts it", m.Int() == int(x))
	Assert("Int64 converts it", m.Int64() == int64(x))
	Assert("Int32 converts it", m.Int32() == int32(x))
	Assert("Uint converts it", m.Uint() == uint(x))
	Assert("Uint64 converts it", m.Uint64() == uint64(x))
	Assert("Uint32 converts it", m.Uint32() == uint32(x))
	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == strconv.FormatUint(uint64(x), 10))
}

// SpecC19NewFloat64: a number made from any finite float
func SpecC19NewFloat64() {
	x := AnyFiniteFloat64("x")
	m := jsonvalue.NewFloat64(x)
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("it is either an integer or a float", m.IsFloat() == !m.IsInteger())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float64 returns it", m.Float64() == x)
	Assert("Float32 converts it", m.Float32() == float32(x))
}

// SpecC19NewFloat64f: a number made from any finite float, with a format
func SpecC19NewFloat64f() {
	x := AnyFiniteFloat64("x")
	m := jsonvalue.NewFloat64f(x, AnyUint8("format"), AnyInt("prec"))
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float64 returns it", m.Float64() == x)
}

// SpecC19NewFloat32: a number made from any single-precision float
func SpecC19NewFloat32() {
	x := AnyFloat32("x")
	Assume(x == x)
	m := jsonvalue.NewFloat32(x)
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float32 returns it", m.Float32() == x)
	Assert("Float64 converts it", m.Float64() == float64(x))
}

// SpecC19SignsOthers: anything else than a number
func SpecC19SignsOthers() {
	m := AnyRawV("m")
	Assume(m != nil && Kind(m) != jsonvalue.Number)
	Assert("it is no number", !m.IsNumber() && !m.IsInteger() && !m.IsFloat())
	Assert("it has no sign", !m.IsNegative() && !m.IsPositive() && !m.GreaterThanInt64Max())
}

// SpecC19Kinds: the type tests
func SpecC19Kinds() {
	m := AnyRawV("m")
	Assume(m != nil)
	k := Kind(m)
	Assert("ValueType tells the type", m.ValueType() == k)
	Assert("the type tests tell it", m.IsObject() == (k == jsonvalue.Object) && m.IsArray() == (k == jsonvalue.Array) &&
		m.IsString() == (k == jsonvalue.String) && m.IsNumber() == (k == jsonvalue.Number) &&
		m.IsBoolean() == (k == jsonvalue.Boolean) && m.IsNull() == (k == jsonvalue.Null))
}

// SpecC19Parse1: a parsed integer of 1 digits
func SpecC19Parse1() {
	var text [1]byte

	x := int64(0)
	for i := 0; i < 1; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 1 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative1: a parsed negative integer of 1 digits
func SpecC19ParseNegative1() {
	var text [2]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 1; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 1 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19Parse2: a parsed integer of 2 digits
func SpecC19Parse2() {
	var text [2]byte

	x := int64(0)
	for i := 0; i < 2; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 2 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative2: a parsed negative integer of 2 digits
func SpecC19ParseNegative2() {
	var text [3]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 2; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 2 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19Parse3: a parsed integer of 3 digits
func SpecC19Parse3() {
	var text [3]byte

	x := int64(0)
	for i := 0; i < 3; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 3 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative3: a parsed negative integer of 3 digits
func SpecC19ParseNegative3() {
	var text [4]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 3; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 3 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19Parse5: a parsed integer of 5 digits
func SpecC19Parse5() {
	var text [5]byte

	x := int64(0)
	for i := 0; i < 5; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 5 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative5: a parsed negative integer of 5 digits
func SpecC19ParseNegative5() {
	var text [6]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 5; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 5 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19Parse10: a parsed integer of 10 digits
func SpecC19Parse10() {
	var text [10]byte

	x := int64(0)
	for i := 0; i < 10; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 10 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative10: a parsed negative integer of 10 digits
func SpecC19ParseNegative10() {
	var text [11]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 10; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 10 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19Parse18: a parsed integer of 18 digits
func SpecC19Parse18() {
	var text [18]byte

	x := int64(0)
	for i := 0; i < 18; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 18 > 1 {
			Assume(d != '0')
		}
		text[i+0] = d
		x = x*10 + int64(d-'0')
	}

	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

// SpecC19ParseNegative18: a parsed negative integer of 18 digits
func SpecC19ParseNegative18() {
	var text [19]byte
	text[0] = 45
	x := int64(0)
	for i := 0; i < 18; i++ {
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && 18 > 1 {
			Assume(d != '0')
		}
		text[i+1] = d
		x = x*10 + int64(d-'0')
	}
	Assume(x > 0)
	x = -x
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}

func same(m *jsonvalue.V, x int64) {
	r := jsonvalue.NewInt64(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsInteger() && !m.IsFloat())
	Assert("its sign tests are those of the integer", m.IsNegative() == r.IsNegative() && m.IsPositive() == r.IsPositive() && m.GreaterThanInt64Max() == r.GreaterThanInt64Max())
	Assert("its accessors are those of the integer", m.Int() == r.Int() && m.Int64() == r.Int64() && m.Int32() == r.Int32() &&
		m.Uint() == r.Uint() && m.Uint64() == r.Uint64() && m.Uint32() == r.Uint32())
	Assert("its value is the integer", m.Int64() == x)
	Assert("its floats are those of the integer", m.Float64() == r.Float64() && m.Float32() == r.Float32())
}
