#!/usr/bin/env python3
"""Writes analyzer/specs/c16.spec."""
types = [
    ("String", "AnyString", 'Kind(m) == jsonvalue.String && m.String() == x'),
    ("Bytes", "AnyBytes", 'Kind(m) == jsonvalue.String && m.String() == base64.StdEncoding.EncodeToString(x)'),
    ("Bool", "AnyBool", 'Kind(m) == jsonvalue.Boolean && m.Bool() == x'),
    ("Int", "AnyInt", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0)'),
    ("Int64", "AnyInt64", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0)'),
    ("Int32", "AnyInt32", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0)'),
    ("Uint", "AnyUint", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative()'),
    ("Uint64", "AnyUint64", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative()'),
    ("Uint32", "AnyUint32", 'Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative()'),
    ("Float64", "AnyFiniteFloat64", 'Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String()'),
    ("Float32", "AnyFloat32", 'Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String()'),
    ("Null", None, 'Kind(m) == jsonvalue.Null'),
    ("Object", None, 'Kind(m) == jsonvalue.Object && Count(m) == 0'),
    ("Array", None, 'Kind(m) == jsonvalue.Array && Len(m) == 0'),
]
ops = [
    ("Set", "SetKey", "object", 'At(key)', 'Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1', 'Member(v, key)'),
    ("Set", "SetIndex", "array", 'At(i)', 'Len(v) == n', 'Elem(v, i)'),
    ("Insert", "Before", "array", 'Before(i)', 'Len(v) == n+1', 'Elem(v, i)'),
    ("Insert", "After", "array", 'After(i)', 'Len(v) == n+1', 'Elem(v, i+1)'),
    ("Append", "Beginning", "array", 'InTheBeginning()', 'Len(v) == n+1', 'Elem(v, 0)'),
    ("Append", "End", "array", 'InTheEnd()', 'Len(v) == n+1', 'Elem(v, n)'),
]
out = ['''// Written by tools/gen_c16.py.
package spec

import (
	"encoding/base64"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func object(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Object)
	return v
}

func someArray() (*jsonvalue.V, int, int) {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	n := Len(v)
	i := AnyInt("i")
	Assume(0 <= i && i < n)
	return v, n, i
}
''']
for op, name, target, call, shape, member in ops:
    for ty, inp, cond in types:
        if op == "Insert" and ty == "Bytes":
            continue
        out.append(f"\n// SpecC16{name}{ty}: {op}{ty} and Must{op}{ty}\nfunc SpecC16{name}{ty}() {{")
        if target == "object":
            out.append('\tv := object("v")\n\tkey := AnyString("key")\n\tn, had := Count(v), Has(v, key)')
        else:
            out.append('\tv, n, i := someArray()')
            if 'i' not in call.replace('InTheBeginning', '').replace('InTheEnd', ''):
                out.append('\t_ = i')
        arg = ''
        if inp:
            out.append(f'\tx := {inp}("x")')
            arg = 'x'
        out.append(f'''	if AnyBool("must") {{
		v.Must{op}{ty}({arg}).{call}
	}} else {{
		got, err := v.{op}{ty}({arg}).{call}
		Assert("the operation succeeds and returns the member", err == nil && got == {member})
	}}
	Assert("exactly one member is set", {shape})
	m := {member}
	Assert("the member has the given type and value", {cond})
}}''')
# the general operation and its Must variant, with one step and with two
out.append('''
// SpecC16MustFails: a failing operation without an error result has no effect either
func SpecC16MustFails() {
	v := AnyV("v")
	i := AnyInt("i")
	c := AnyV("c")
	if Kind(v) == jsonvalue.Array {
		n := Len(v)
		Assume(i < -n || i > n)
	} else {
		Assume(Kind(v) != jsonvalue.Object)
	}
	switch AnyInt("op") {
	case 0:
		v.MustSet(c).At(i)
	case 1:
		v.MustInsert(c).Before(i)
	case 2:
		v.MustInsert(c).After(i)
	case 3:
		v.MustAppend(c).InTheBeginning(i)
	case 4:
		v.MustAppend(c).InTheEnd(i)
	case 5:
		v.MustDelete(i)
	default:
		v.At(i).Set(c)
	}
	AssertUntouched("nothing changes")
}

// SpecC16MustDelete: deleting without an error result
func SpecC16MustDelete() {
	if AnyBool("array") {
		v, n, i := someArray()
		k := AnyInt("k")
		Assume(0 <= k && k < n)
		old := Elem(v, k)
		v.MustDelete(i)
		Assert("the array is one shorter", Len(v) == n-1)
		if k < i {
			Assert("those in front stay", Elem(v, k) == old)
		}
		if k > i {
			Assert("those behind move", Elem(v, k-1) == old)
		}
		return
	}
	v := object("v")
	key := AnyString("key")
	n := Count(v)
	Assume(Has(v, key))
	v.MustDelete(key)
	Assert("the member is deleted", !Has(v, key) && Count(v) == n-1)
}

// SpecC16AtSet: v.At(path).Set(c) sets as v.Set(c).At(path)
func SpecC16AtSet() {
	c := AnyV("c")
	if AnyBool("array") {
		v, n, i := someArray()
		v.At(i).Set(c)
		Assert("the element is set", Len(v) == n && Elem(v, i) == c)
		return
	}
	v := object("v")
	key, sub := AnyString("key"), AnyString("sub")
	if AnyBool("deep") {
		Assume(!Has(v, key))
		v.At(key, sub).Set(c)
		Assert("the member of the member is set", Has(v, key) && Kind(Member(v, key)) == jsonvalue.Object && Member(Member(v, key), sub) == c)
		return
	}
	v.At(key).Set(c)
	Assert("the member is set", Member(v, key) == c)
}

// SpecC16Delegated: variants without an error result with a longer path
func SpecC16Delegated() {
	v := object("v")
	key := AnyString("key")
	Assume(Has(v, key))
	a := Member(v, key)
	Assume(Kind(a) == jsonvalue.Array)
	n := Len(a)
	i := AnyInt("i")
	Assume(0 <= i && i < n)
	c := AnyV("c")
	switch AnyInt("op") {
	case 0:
		v.MustSet(c).At(key, i)
		Assert("the element is set", Len(a) == n && Elem(a, i) == c)
	case 1:
		v.MustInsert(c).Before(key, i)
		Assert("the element is inserted before", Len(a) == n+1 && Elem(a, i) == c)
	case 2:
		v.MustInsert(c).After(key, i)
		Assert("the element is inserted behind", Len(a) == n+1 && Elem(a, i+1) == c)
	case 3:
		v.MustAppend(c).InTheBeginning(key)
		Assert("the element is the first", Len(a) == n+1 && Elem(a, 0) == c)
	case 4:
		v.MustAppend(c).InTheEnd(key)
		Assert("the element is the last", Len(a) == n+1 && Elem(a, n) == c)
	default:
		v.MustDelete(key, i)
		Assert("the element is deleted", Len(a) == n-1)
	}
}
''')
# members given as Go values
out.append('''
// SpecC16GoValues: a member given as a Go value
func SpecC16GoValues() {
	v := object("v")
	key := AnyString("key")
	switch AnyInt("type") {
	case 0:
		x := AnyString("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a string is stored", err == nil && Kind(m) == jsonvalue.String && m.String() == x)
	case 1:
		x := AnyInt("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Int() == x)
	case 2:
		x := AnyUint64("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("an unsigned number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Uint64() == x)
	case 3:
		x := AnyBool("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a boolean is stored", err == nil && Kind(m) == jsonvalue.Boolean && m.Bool() == x)
	case 4:
		x := AnyFiniteFloat64("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a float is stored", err == nil && Kind(m) == jsonvalue.Number && m.Float64() == x)
	case 5:
		x := AnyInt8("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a short number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Int() == int(x))
	}
}
''')
open(__file__.replace('tools/gen_c16.py', 'analyzer/specs/c16.spec'), 'w').write("\n".join(out))
