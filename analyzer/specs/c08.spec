package spec

import (
	"github.com/Andrew-M-C/go.jsonvalue/beta"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// read: from here on, v and all that was there before is only read
func read() *jsonvalue.V {
	v := AnyV("v")
	ReadOnly("reading stores nothing to what is read")
	return v
}

func kindIs(v *jsonvalue.V, t jsonvalue.ValueType) *jsonvalue.V {
	Assume(Kind(v) == t)
	return v
}

func end() { AssertUntouched("reading leaves everything as it was") }

// step is a text or a number
func step(name string) interface{} {
	if AnyBool(name + " is a text") {
		return AnyString(name)
	}
	return AnyInt(name)
}

// anyPath is a path of one to three steps
func anyPath() (interface{}, []interface{}) {
	p := step("p0")
	if AnyBool("one") {
		return p, nil
	}
	if AnyBool("two") {
		return p, []interface{}{step("p1")}
	}
	return p, []interface{}{step("p1"), step("p2")}
}

// numeric: texts are read as numbers only if they are members of an object
func numeric(p interface{}) *jsonvalue.V {
	v := read()
	k, ok := p.(string)
	text := ok && Kind(v) == jsonvalue.Object && Has(v, k) && Kind(Member(v, k)) == jsonvalue.String
	if i, ok := p.(int); ok && Kind(v) == jsonvalue.Array && !text {
		if i < 0 {
			i += Len(v)
		}
		if 0 <= i && i < Len(v) {
			Assume(Kind(Elem(v, i)) != jsonvalue.String)
		}
	}
	return v
}

func SpecC08Kinds() {
	v := read()
	v.ValueType()
	v.Len()
	v.IsObject()
	v.IsArray()
	v.IsString()
	v.IsNumber()
	v.IsFloat()
	v.IsInteger()
	v.IsBoolean()
	v.IsNull()
	v.IsNegative()
	v.IsPositive()
	v.GreaterThanInt64Max()
	end()
}

func SpecC08Bool()  { read().Bool(); end() }
func SpecC08Bytes() { read().Bytes(); end() }

func SpecC08Int()     { read().Int(); end() }
func SpecC08Int32()   { read().Int32(); end() }
func SpecC08Int64()   { read().Int64(); end() }
func SpecC08Uint()    { read().Uint(); end() }
func SpecC08Uint32()  { read().Uint32(); end() }
func SpecC08Uint64()  { read().Uint64(); end() }
func SpecC08Float32() { read().Float32(); end() }
func SpecC08Float64() { read().Float64(); end() }

func describe() {
	Recursion(func(m *jsonvalue.V) string { return AnyString("description") })
	v := read()
	_ = v.String()
	end()
}

func SpecC08String() { describe() }

func SpecC08Get() {
	p, ps := anyPath()
	read().Get(p, ps...)
	end()
}

func SpecC08MustGet() {
	p, ps := anyPath()
	read().MustGet(p, ps...)
	end()
}

func SpecC08GetBytes() {
	p, ps := anyPath()
	read().GetBytes(p, ps...)
	end()
}

func SpecC08GetString() {
	p, ps := anyPath()
	read().GetString(p, ps...)
	end()
}

func SpecC08GetInt() {
	p := step("p")
	numeric(p).GetInt(p)
	end()
}

func SpecC08GetInt32() {
	p := step("p")
	numeric(p).GetInt32(p)
	end()
}

func SpecC08GetInt64() {
	p := step("p")
	numeric(p).GetInt64(p)
	end()
}

func SpecC08GetUint() {
	p := step("p")
	numeric(p).GetUint(p)
	end()
}

func SpecC08GetUint32() {
	p := step("p")
	numeric(p).GetUint32(p)
	end()
}

func SpecC08GetUint64() {
	p := step("p")
	numeric(p).GetUint64(p)
	end()
}

func SpecC08GetFloat32() {
	p := step("p")
	numeric(p).GetFloat32(p)
	end()
}

func SpecC08GetFloat64() {
	p := step("p")
	numeric(p).GetFloat64(p)
	end()
}

func SpecC08GetBool() {
	p, ps := anyPath()
	read().GetBool(p, ps...)
	end()
}

func SpecC08GetNull() {
	p, ps := anyPath()
	_ = read().GetNull(p, ps...)
	end()
}

func SpecC08GetObject() {
	p, ps := anyPath()
	read().GetObject(p, ps...)
	end()
}

func SpecC08GetArray() {
	p, ps := anyPath()
	read().GetArray(p, ps...)
	end()
}

func SpecC08RangeArray() {
	read().RangeArray(func(i int, m *jsonvalue.V) bool { return AnyBool("go on") })
	end()
}

func SpecC08RangeObjects() {
	read().RangeObjects(func(k string, m *jsonvalue.V) bool { return AnyBool("go on") })
	end()
}

func SpecC08RangeBySequence() {
	read().RangeObjectsBySetSequence(func(k string, m *jsonvalue.V) bool { return AnyBool("go on") })
	end()
}

func SpecC08IterArray() {
	read().IterArray()
	end()
}

func SpecC08IterObjects() {
	read().IterObjects()
	end()
}

func SpecC08ForRangeArr() {
	read().ForRangeArr()
	end()
}

func SpecC08ForRangeObj() {
	read().ForRangeObj()
	end()
}

func SpecC08Greater() {
	v, w := AnyV("v"), AnyV("w")
	ReadOnly("comparing stores nothing to what is compared")
	v.GreaterThan(w)
	v.GreaterThanOrEqual(w)
	v.LessThan(w)
	v.LessThanOrEqual(w)
	end()
}

func SpecC08Equal() {
	Recursion(func(x, y *jsonvalue.V) bool { return UFBool("equal", x, y) })
	v, w := AnyV("v"), AnyV("w")
	ReadOnly("comparing stores nothing to what is compared")
	v.Equal(w)
	end()
}

func marshal(o jsonvalue.Opt, xs ...jsonvalue.Option) {
	EscapingIsAFunction()
	Output(func(c byte) {}, func(s string) {}, func(s string) {}, func(m *jsonvalue.V, err error) {})
	v := read()
	xs = append([]jsonvalue.Option{o}, xs...)
	v.Marshal(xs...)
	end()
}

func SpecC08Marshal()          { marshal(withOmit(opt(), AnyBool("omit"))) }
func SpecC08MarshalBySequence() { marshal(withOmit(opt(), AnyBool("omit")), jsonvalue.OptSetSequence()) }
func SpecC08MarshalByLess() {
	marshal(withOmit(opt(), AnyBool("omit")), jsonvalue.OptKeySequenceWithLessFunc(AnyLess("less")))
}
func SpecC08MarshalByKeys() { marshal(withOmit(opt(), AnyBool("omit")), jsonvalue.OptKeySequence(AnyStrings("keys"))) }

func SpecC08MarshalJSON() {
	EscapingIsAFunction()
	Output(func(c byte) {}, func(s string) {}, func(s string) {}, func(m *jsonvalue.V, err error) {})
	v := read()
	v.MarshalJSON()
	end()
}

func SpecC08Import() {
	Recursion(func(m *jsonvalue.V) *jsonvalue.V { return UFV("copy", m) })
	jsonvalue.Import(read())
	end()
}

func contains(t jsonvalue.ValueType, path ...interface{}) {
	Summary(func(x, y *jsonvalue.V) bool { return AnyBool("compared") })
	Recursion(func(x *jsonvalue.V, sub interface{}, path ...interface{}) bool { return AnyBool("contains") })
	v, w := AnyV("v"), AnyV("w")
	Assume(Kind(w) == t)
	ReadOnly("a containment test stores nothing to what it reads")
	beta.Contains(v, w, path...)
	end()
}

func SpecC08ContainsObject() { contains(jsonvalue.Object) }
func SpecC08ContainsArray()  { contains(jsonvalue.Array) }
func SpecC08ContainsString() { contains(jsonvalue.String) }
func SpecC08ContainsNumber() { contains(jsonvalue.Number) }
func SpecC08ContainsBelow()  { contains(jsonvalue.Null, step("p0"), step("p1")) }
