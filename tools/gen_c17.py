#!/usr/bin/env python3
"""Writes analyzer/specs/c17.spec."""
import os
nums = ["Int", "Uint", "Int64", "Uint64", "Int32", "Uint32", "Float64", "Float32"]
out = ['''// Written by tools/gen_c17.py.
package spec

import (
	"errors"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// anyPath is a path of one or two steps which are strings or numbers.
func anyPath() (interface{}, []interface{}) {
	var p interface{} = AnyInt("i0")
	if AnyBool("s0") {
		p = AnyString("k0")
	}
	if AnyBool("one") {
		return p, nil
	}
	var q interface{} = AnyInt("i1")
	if AnyBool("s1") {
		q = AnyString("k1")
	}
	return p, []interface{}{q}
}

// getter is the value or its case-insensitive form.
func getter(v *jsonvalue.V) jsonvalue.Caseless {
	if AnyBool("caseless") {
		return v.Caseless()
	}
	return v
}

// addressed is a member which the given path leads to, with the path.
func addressed() (*jsonvalue.V, *jsonvalue.V, interface{}) {
	v := AnyV("v")
	if AnyBool("object") {
		Assume(Kind(v) == jsonvalue.Object)
		key := AnyString("key")
		Assume(Has(v, key))
		return v, Member(v, key), key
	}
	Assume(Kind(v) == jsonvalue.Array)
	i := AnyInt("i")
	Assume(0 <= i && i < Len(v))
	return v, Elem(v, i), i
}

// SpecC17GetObject: a step into an object
func SpecC17GetObject() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Object)
	if AnyBool("string") {
		key := AnyString("key")
		m, err := v.Get(key)
		if Has(v, key) {
			Assert("a member is found", err == nil && m == Member(v, key))
			Assert("MustGet finds it too", v.MustGet(key) == m)
			c, err := v.Caseless().Get(key)
			Assert("the case-insensitive lookup prefers the exact key", err == nil && c == m)
		} else {
			Assert("a missing member is an error", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
			Assert("MustGet gives an empty value", Kind(v.MustGet(key)) == jsonvalue.NotExist)
		}
	} else {
		m, err := v.Get(AnyInt("i"))
		Assert("an object has no index", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
	}
}

// SpecC17GetArray: a step into an array
func SpecC17GetArray() {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	n := Len(v)
	if AnyBool("string") {
		m, err := v.Get(AnyString("key"))
		Assert("an array has no key", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
	} else {
		i := AnyInt("i")
		g := getter(v)
		m, err := g.Get(i)
		if 0 <= i && i < n {
			Assert("an index counts from the start", err == nil && m == Elem(v, i))
		} else if -n <= i && i < 0 {
			Assert("a negative index counts from the end", err == nil && m == Elem(v, n+i))
		} else {
			Assert("an index out of range is an error", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
		}
	}
}

// SpecC17GetOther: a step into anything else
func SpecC17GetOther() {
	v := AnyRawV("v")
	Assume(v != nil && Kind(v) != jsonvalue.Object && Kind(v) != jsonvalue.Array)
	p, q := anyPath()
	m, err := getter(v).Get(p, q...)
	Assert("a value without members has none", err != nil && m != nil && Kind(m) == jsonvalue.NotExist)
}

// SpecC17GetTwo: a path of two steps is a step after a step
func SpecC17GetTwo() {
	v, m, k := addressed()
	key := AnyString("second")
	want, err1 := m.Get(key)
	got, err2 := v.Get(k, key)
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("the second step continues at the first", got == want)
	}
}

// SpecC17GetTwoIndex: a path of two steps is a step after a step
func SpecC17GetTwoIndex() {
	v, m, k := addressed()
	i := AnyInt("second")
	want, err1 := m.Get(i)
	got, err2 := v.Get(k, i)
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("the second step continues at the first", got == want)
	}
}

// SpecC17GetSlice: a path given as one slice
func SpecC17GetSlice() {
	v := AnyV("v")
	k, i := AnyString("k"), AnyInt("i")
	want, err1 := v.Get(k, i)
	got, err2 := v.Get([]interface{}{k, i})
	Assert("both or neither exist", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		Assert("a slice is a path", got == want)
	}
}
''']
def spec(name, doc, body):
    out.append(f"// SpecC17{name}: {doc}\nfunc SpecC17{name}() {{\n{body}}}\n")

miss = '''	v := AnyRawV("v")
	Assume(v != nil)
	p, q := anyPath()
	_, err := v.Get(p, q...)
	Assume(err != nil)
'''
for t in nums:
    spec(t + "Missing", f"Get{t} of a member that does not exist", miss + f'''	x, err := v.Get{t}(p, q...)
	Assert("nothing there is an error, and zero", err != nil && x == 0)
''')
    spec(t, f"Get{t} of every kind of member", f'''	v, m, k := addressed()
	x, err := getter(v).Get{t}(k)
	switch Kind(m) {{
	case jsonvalue.Number:
		y := m.{t}()
		Assert("a number is returned as its accessor returns it", err == nil && (x == y || y != y))
	case jsonvalue.String:
		Assert("a string gives an error that tells so", errors.Is(err, jsonvalue.ErrTypeNotMatch) || errors.Is(err, jsonvalue.ErrParseNumberFromString))
	default:
		Assert("any other type is an error, and zero", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == 0)
		Assert("its accessor gives zero too", m.{t}() == 0)
	}}
''')
for t, zero, kind in [("Bool", "!x", "Boolean"), ("String", 'x == ""', "String"), ("Bytes", "len(x) == 0", "String")]:
    spec(t + "Missing", f"Get{t} of a member that does not exist", miss + f'''	x, err := v.Get{t}(p, q...)
	Assert("nothing there is an error, and zero", err != nil && {zero})
''')
spec("Bool", "GetBool of every kind of member", '''	v, m, k := addressed()
	x, err := getter(v).GetBool(k)
	Assert("it succeeds exactly for a boolean", (err == nil) == (Kind(m) == jsonvalue.Boolean))
	Assert("it returns what the accessor returns", x == m.Bool())
	switch Kind(m) {
	case jsonvalue.Boolean, jsonvalue.Number, jsonvalue.String:
	default:
		Assert("any other type gives false", !x)
	}
''')
spec("String", "GetString of every kind of member", '''	v, m, k := addressed()
	x, err := getter(v).GetString(k)
	if Kind(m) == jsonvalue.String {
		Assert("a string is returned as its accessor returns it", err == nil && x == m.String())
	} else {
		Assert("any other type is an error, and empty", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x == "")
	}
''')
spec("Bytes", "GetBytes of every kind of member", '''	v, m, k := addressed()
	x, err := getter(v).GetBytes(k)
	if Kind(m) != jsonvalue.String {
		Assert("any other type is an error, and empty", errors.Is(err, jsonvalue.ErrTypeNotMatch) && len(x) == 0 && len(m.Bytes()) == 0)
	} else if err == nil {
		Assert("it returns what the accessor returns", string(x) == string(m.Bytes()))
	} else {
		Assert("a text that is not base64 gives nothing", len(x) == 0 && len(m.Bytes()) == 0)
	}
''')
spec("Null", "GetNull of every kind of member", '''	v, m, k := addressed()
	err := getter(v).GetNull(k)
	Assert("it succeeds exactly for null", (err == nil) == (Kind(m) == jsonvalue.Null))
	Assert("it tells a wrong type", err == nil || errors.Is(err, jsonvalue.ErrTypeNotMatch))
''')
spec("NullMissing", "GetNull of a member that does not exist", miss.replace("_, err := v.Get", "_, err := v.Get") + '''	err = v.GetNull(p, q...)
	Assert("nothing there is an error", err != nil)
''')
for t in ["Object", "Array"]:
    spec(t + "s", f"Get{t} of every kind of member", f'''	v, m, k := addressed()
	x, err := getter(v).Get{t}(k)
	if Kind(m) == jsonvalue.{t} {{
		Assert("it is returned itself", err == nil && x == m)
	}} else {{
		Assert("any other type is an error", errors.Is(err, jsonvalue.ErrTypeNotMatch) && x != nil && Kind(x) == jsonvalue.NotExist)
	}}
''')
    spec(t + "Missing", f"Get{t} of a member that does not exist", miss + f'''	x, err := v.Get{t}(p, q...)
	Assert("nothing there is an error", err != nil && x != nil && Kind(x) == jsonvalue.NotExist)
''')
for n, neg in [(1, False), (3, False), (3, True)]:
    name = f"Spelled{'Negative' if neg else ''}{n}"
    spec(name, "numbers spelled in a string", f'''	var text [{n + neg}]byte
{'	text[0] = 45' if neg else ''}
	x := int64(0)
	for i := 0; i < {n}; i++ {{
		d := AnyUint8("digit" + strconv.Itoa(i))
		Assume('0' <= d && d <= '9')
		if i == 0 && {n} > 1 {{
			Assume(d != '0')
		}}
		text[i+{int(neg)}] = d
		x = x*10 + int64(d-'0')
	}}
{'	Assume(x > 0)' + chr(10) + '	x = -x' if neg else ''}
	v := jsonvalue.NewObject()
	v.MustSetString(string(text[:])).At("k")
''' + "".join(f'''	v{t}, err{t} := v.Get{t}("k")
	Assert("Get{t} returns the number spelled, with an error", v{t} == {t.lower()}(x) && errors.Is(err{t}, jsonvalue.ErrTypeNotMatch))
''' for t in nums))
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "analyzer", "specs", "c17.spec")
open(path, "w").write("\n".join(out))
