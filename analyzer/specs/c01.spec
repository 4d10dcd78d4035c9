package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Texts shorter than 1 GiB: statistics are kept in 32 bits.

func SpecC01UnmarshalNoCopy() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	jsonvalue.UnmarshalNoCopy(b)
	Assert("returns", true)
}

func SpecC01MustUnmarshalNoCopy() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	jsonvalue.MustUnmarshalNoCopy(b)
	Assert("returns", true)
}

func SpecC01Unmarshal() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	jsonvalue.Unmarshal(b)
	Assert("returns", true)
}

func SpecC01MustUnmarshal() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	jsonvalue.MustUnmarshal(b)
	Assert("returns", true)
}

func SpecC01UnmarshalString() {
	NoPanic()
	s := AnyString("s")
	Assume(len(s) < 1<<30)
	jsonvalue.UnmarshalString(s)
	Assert("returns", true)
}

func SpecC01MustUnmarshalString() {
	NoPanic()
	s := AnyString("s")
	Assume(len(s) < 1<<30)
	jsonvalue.MustUnmarshalString(s)
	Assert("returns", true)
}

func SpecC01UnmarshalJSON() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	v := &jsonvalue.V{}
	v.UnmarshalJSON(b)
	Assert("returns", true)
}

func SpecC01UnmarshalBinary() {
	NoPanic()
	b := AnyBytes("b")
	Assume(len(b) < 1<<30)
	v := &jsonvalue.V{}
	v.UnmarshalBinary(b)
	Assert("returns", true)
}

// ---- numbers and booleans read from strings ----

func SpecC01Int() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Int()
	Assert("returns", true)
}

func SpecC01Uint() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Uint()
	Assert("returns", true)
}

func SpecC01Int64() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Int64()
	Assert("returns", true)
}

func SpecC01Uint64() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Uint64()
	Assert("returns", true)
}

func SpecC01Int32() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Int32()
	Assert("returns", true)
}

func SpecC01Uint32() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Uint32()
	Assert("returns", true)
}

func SpecC01Float64() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Float64()
	Assert("returns", true)
}

func SpecC01Float32() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Float32()
	Assert("returns", true)
}

func SpecC01Bool() {
	NoPanic()
	jsonvalue.NewString(AnyString("s")).Bool()
	Assert("returns", true)
}

func stringMember() *jsonvalue.V {
	o := jsonvalue.NewObject()
	o.MustSet(jsonvalue.NewString(AnyString("s"))).At("k")
	return o
}

func SpecC01GetInt() {
	NoPanic()
	stringMember().GetInt("k")
	Assert("returns", true)
}

func SpecC01GetUint() {
	NoPanic()
	stringMember().GetUint("k")
	Assert("returns", true)
}

func SpecC01GetInt64() {
	NoPanic()
	stringMember().GetInt64("k")
	Assert("returns", true)
}

func SpecC01GetUint64() {
	NoPanic()
	stringMember().GetUint64("k")
	Assert("returns", true)
}

func SpecC01GetInt32() {
	NoPanic()
	stringMember().GetInt32("k")
	Assert("returns", true)
}

func SpecC01GetUint32() {
	NoPanic()
	stringMember().GetUint32("k")
	Assert("returns", true)
}

func SpecC01GetFloat64() {
	NoPanic()
	stringMember().GetFloat64("k")
	Assert("returns", true)
}

func SpecC01GetFloat32() {
	NoPanic()
	stringMember().GetFloat32("k")
	Assert("returns", true)
}

func SpecC01GetBool() {
	NoPanic()
	stringMember().GetBool("k")
	Assert("returns", true)
}
