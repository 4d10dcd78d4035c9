#!/usr/bin/env python3
"""Writes analyzer/specs/c19.spec."""
import os
ints = ["Int", "Int64", "Int32", "Uint", "Uint64", "Uint32"]
out = ['''// Written by tools/gen_c19.py.
package spec

import (
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)
''']
ACC = [("Int", "int"), ("Int64", "int64"), ("Int32", "int32"), ("Uint", "uint"), ("Uint64", "uint64"), ("Uint32", "uint32")]
for t in ints:
    gt = t.lower()
    uns = t.startswith("Uint")
    fmt = "strconv.FormatUint(uint64(x), 10)" if uns else "strconv.FormatInt(int64(x), 10)"
    neg = "false" if uns else "x < 0"
    big = "uint64(x) > 1<<63-1" if uns else "false"
    out.append(f'''// SpecC19New{t}: a number made from any {gt}
func SpecC19New{t}() {{
	x := Any{t}("x")
	m := jsonvalue.New{t}(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsNumber() && m.IsInteger() && !m.IsFloat())
	Assert("the sign tests tell its sign", m.IsNegative() == ({neg}) && m.IsPositive() == !({neg}))
	Assert("it is beyond int64 exactly if the integer is", m.GreaterThanInt64Max() == ({big}))''')
    for a, g in ACC:
        out.append(f'	Assert("{a} converts it", m.{a}() == {g}(x))')
    out.append(f'''	Assert("Float64 converts it", m.Float64() == float64(x))
	Assert("Float32 converts that", m.Float32() == float32(m.Float64()))
	Assert("its text is its decimal digits", m.String() == {fmt})
}}
''')
out.append('''// SpecC19NewFloat64: a number made from any finite float
func SpecC19NewFloat64() {
	x := AnyFiniteFloat64("x")
	m := jsonvalue.NewFloat64(x)
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("it is either an integer or a float", m.IsFloat() == !m.IsInteger())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float64 returns it", m.Float64() == x)
	Assert("Float32 converts it", m.Float32() == float32(x))
}

// SpecC19NewFloat64f: a number made from any finite float, with a format
func SpecC19NewFloat64f() {
	x := AnyFiniteFloat64("x")
	m := jsonvalue.NewFloat64f(x, AnyUint8("format"), AnyInt("prec"))
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float64 returns it", m.Float64() == x)
}

// SpecC19NewFloat32: a number made from any single-precision float
func SpecC19NewFloat32() {
	x := AnyFloat32("x")
	Assume(x == x)
	m := jsonvalue.NewFloat32(x)
	Assert("it is a number", Kind(m) == jsonvalue.Number && m.IsNumber())
	Assert("the sign tests tell its sign", m.IsNegative() == (x < 0) && m.IsPositive() == !(x < 0))
	Assert("Float32 returns it", m.Float32() == x)
	Assert("Float64 converts it", m.Float64() == float64(x))
}

// SpecC19SignsOthers: anything else than a number
func SpecC19SignsOthers() {
	m := AnyRawV("m")
	Assume(m != nil && Kind(m) != jsonvalue.Number)
	Assert("it is no number", !m.IsNumber() && !m.IsInteger() && !m.IsFloat())
	Assert("it has no sign", !m.IsNegative() && !m.IsPositive() && !m.GreaterThanInt64Max())
}

// SpecC19Kinds: the type tests
func SpecC19Kinds() {
	m := AnyRawV("m")
	Assume(m != nil)
	k := Kind(m)
	Assert("ValueType tells the type", m.ValueType() == k)
	Assert("the type tests tell it", m.IsObject() == (k == jsonvalue.Object) && m.IsArray() == (k == jsonvalue.Array) &&
		m.IsString() == (k == jsonvalue.String) && m.IsNumber() == (k == jsonvalue.Number) &&
		m.IsBoolean() == (k == jsonvalue.Boolean) && m.IsNull() == (k == jsonvalue.Null))
}
''')
for n in [1, 2, 3, 5, 10, 18]:
    for neg in [False, True]:
        name = f"Parse{'Negative' if neg else ''}{n}"
        out.append(f'''// Spec{'C19'}{name}: a parsed {'negative ' if neg else ''}integer of {n} digits
func SpecC19{name}() {{
	var text [{n + neg}]byte
{'	text[0] = 45' if neg else ''}
	x := int64(0)
	for i := 0; i < {n}; i++ {{
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && {n} > 1 {{
			Assume(d != '0')
		}}
		text[i+{int(neg)}] = d
		x = x*10 + int64(d-'0')
	}}
{'	Assume(x > 0)' + chr(10) + '	x = -x' if neg else ''}
	m, err := jsonvalue.Unmarshal(text[:])
	Assert("it is parsed", err == nil)
	same(m, x)
}}
''')
out.append('''func same(m *jsonvalue.V, x int64) {
	r := jsonvalue.NewInt64(x)
	Assert("it is an integer number", Kind(m) == jsonvalue.Number && m.IsInteger() && !m.IsFloat())
	Assert("its sign tests are those of the integer", m.IsNegative() == r.IsNegative() && m.IsPositive() == r.IsPositive() && m.GreaterThanInt64Max() == r.GreaterThanInt64Max())
	Assert("its accessors are those of the integer", m.Int() == r.Int() && m.Int64() == r.Int64() && m.Int32() == r.Int32() &&
		m.Uint() == r.Uint() && m.Uint64() == r.Uint64() && m.Uint32() == r.Uint32())
	Assert("its value is the integer", m.Int64() == x)
	Assert("its floats are those of the integer", m.Float64() == r.Float64() && m.Float32() == r.Float32())
}
''')
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analyzer", "specs", "c19.spec")
open(path, "w").write("\n".join(out))
