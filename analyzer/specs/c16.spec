// Written by tools/gen_c16.py.
package spec

import (
	"encoding/base64"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func object(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Object)
	return v
}

func someArray() (*jsonvalue.V, int, int) {
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Array)
	n := Len(v)
	i := AnyInt("i")
	Assume(0 <= i && i < n)
	return v, n, i
}


// SpecC16SetKeyString: SetString and MustSetString
func SpecC16SetKeyString() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyString("x")
	if AnyBool("must") {
		v.MustSetString(x).At(key)
	} else {
		got, err := v.SetString(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16SetKeyBytes: SetBytes and MustSetBytes
func SpecC16SetKeyBytes() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyBytes("x")
	if AnyBool("must") {
		v.MustSetBytes(x).At(key)
	} else {
		got, err := v.SetBytes(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == base64.StdEncoding.EncodeToString(x))
}

// SpecC16SetKeyBool: SetBool and MustSetBool
func SpecC16SetKeyBool() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustSetBool(x).At(key)
	} else {
		got, err := v.SetBool(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16SetKeyInt: SetInt and MustSetInt
func SpecC16SetKeyInt() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustSetInt(x).At(key)
	} else {
		got, err := v.SetInt(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16SetKeyInt64: SetInt64 and MustSetInt64
func SpecC16SetKeyInt64() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustSetInt64(x).At(key)
	} else {
		got, err := v.SetInt64(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16SetKeyInt32: SetInt32 and MustSetInt32
func SpecC16SetKeyInt32() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustSetInt32(x).At(key)
	} else {
		got, err := v.SetInt32(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16SetKeyUint: SetUint and MustSetUint
func SpecC16SetKeyUint() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustSetUint(x).At(key)
	} else {
		got, err := v.SetUint(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16SetKeyUint64: SetUint64 and MustSetUint64
func SpecC16SetKeyUint64() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustSetUint64(x).At(key)
	} else {
		got, err := v.SetUint64(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16SetKeyUint32: SetUint32 and MustSetUint32
func SpecC16SetKeyUint32() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustSetUint32(x).At(key)
	} else {
		got, err := v.SetUint32(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16SetKeyFloat64: SetFloat64 and MustSetFloat64
func SpecC16SetKeyFloat64() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustSetFloat64(x).At(key)
	} else {
		got, err := v.SetFloat64(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16SetKeyFloat32: SetFloat32 and MustSetFloat32
func SpecC16SetKeyFloat32() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustSetFloat32(x).At(key)
	} else {
		got, err := v.SetFloat32(x).At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16SetKeyNull: SetNull and MustSetNull
func SpecC16SetKeyNull() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	if AnyBool("must") {
		v.MustSetNull().At(key)
	} else {
		got, err := v.SetNull().At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16SetKeyObject: SetObject and MustSetObject
func SpecC16SetKeyObject() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	if AnyBool("must") {
		v.MustSetObject().At(key)
	} else {
		got, err := v.SetObject().At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16SetKeyArray: SetArray and MustSetArray
func SpecC16SetKeyArray() {
	v := object("v")
	key := AnyString("key")
	n, had := Count(v), Has(v, key)
	if AnyBool("must") {
		v.MustSetArray().At(key)
	} else {
		got, err := v.SetArray().At(key)
		Assert("the operation succeeds and returns the member", err == nil && got == Member(v, key))
	}
	Assert("exactly one member is set", Has(v, key) && Count(v) >= n && (Count(v) == n) == had && Count(v) <= n+1)
	m := Member(v, key)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16SetIndexString: SetString and MustSetString
func SpecC16SetIndexString() {
	v, n, i := someArray()
	x := AnyString("x")
	if AnyBool("must") {
		v.MustSetString(x).At(i)
	} else {
		got, err := v.SetString(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16SetIndexBytes: SetBytes and MustSetBytes
func SpecC16SetIndexBytes() {
	v, n, i := someArray()
	x := AnyBytes("x")
	if AnyBool("must") {
		v.MustSetBytes(x).At(i)
	} else {
		got, err := v.SetBytes(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == base64.StdEncoding.EncodeToString(x))
}

// SpecC16SetIndexBool: SetBool and MustSetBool
func SpecC16SetIndexBool() {
	v, n, i := someArray()
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustSetBool(x).At(i)
	} else {
		got, err := v.SetBool(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16SetIndexInt: SetInt and MustSetInt
func SpecC16SetIndexInt() {
	v, n, i := someArray()
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustSetInt(x).At(i)
	} else {
		got, err := v.SetInt(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16SetIndexInt64: SetInt64 and MustSetInt64
func SpecC16SetIndexInt64() {
	v, n, i := someArray()
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustSetInt64(x).At(i)
	} else {
		got, err := v.SetInt64(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16SetIndexInt32: SetInt32 and MustSetInt32
func SpecC16SetIndexInt32() {
	v, n, i := someArray()
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustSetInt32(x).At(i)
	} else {
		got, err := v.SetInt32(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16SetIndexUint: SetUint and MustSetUint
func SpecC16SetIndexUint() {
	v, n, i := someArray()
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustSetUint(x).At(i)
	} else {
		got, err := v.SetUint(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16SetIndexUint64: SetUint64 and MustSetUint64
func SpecC16SetIndexUint64() {
	v, n, i := someArray()
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustSetUint64(x).At(i)
	} else {
		got, err := v.SetUint64(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16SetIndexUint32: SetUint32 and MustSetUint32
func SpecC16SetIndexUint32() {
	v, n, i := someArray()
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustSetUint32(x).At(i)
	} else {
		got, err := v.SetUint32(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16SetIndexFloat64: SetFloat64 and MustSetFloat64
func SpecC16SetIndexFloat64() {
	v, n, i := someArray()
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustSetFloat64(x).At(i)
	} else {
		got, err := v.SetFloat64(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16SetIndexFloat32: SetFloat32 and MustSetFloat32
func SpecC16SetIndexFloat32() {
	v, n, i := someArray()
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustSetFloat32(x).At(i)
	} else {
		got, err := v.SetFloat32(x).At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16SetIndexNull: SetNull and MustSetNull
func SpecC16SetIndexNull() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustSetNull().At(i)
	} else {
		got, err := v.SetNull().At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16SetIndexObject: SetObject and MustSetObject
func SpecC16SetIndexObject() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustSetObject().At(i)
	} else {
		got, err := v.SetObject().At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16SetIndexArray: SetArray and MustSetArray
func SpecC16SetIndexArray() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustSetArray().At(i)
	} else {
		got, err := v.SetArray().At(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16BeforeString: InsertString and MustInsertString
func SpecC16BeforeString() {
	v, n, i := someArray()
	x := AnyString("x")
	if AnyBool("must") {
		v.MustInsertString(x).Before(i)
	} else {
		got, err := v.InsertString(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16BeforeBool: InsertBool and MustInsertBool
func SpecC16BeforeBool() {
	v, n, i := someArray()
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustInsertBool(x).Before(i)
	} else {
		got, err := v.InsertBool(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16BeforeInt: InsertInt and MustInsertInt
func SpecC16BeforeInt() {
	v, n, i := someArray()
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustInsertInt(x).Before(i)
	} else {
		got, err := v.InsertInt(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16BeforeInt64: InsertInt64 and MustInsertInt64
func SpecC16BeforeInt64() {
	v, n, i := someArray()
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustInsertInt64(x).Before(i)
	} else {
		got, err := v.InsertInt64(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16BeforeInt32: InsertInt32 and MustInsertInt32
func SpecC16BeforeInt32() {
	v, n, i := someArray()
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustInsertInt32(x).Before(i)
	} else {
		got, err := v.InsertInt32(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16BeforeUint: InsertUint and MustInsertUint
func SpecC16BeforeUint() {
	v, n, i := someArray()
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustInsertUint(x).Before(i)
	} else {
		got, err := v.InsertUint(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16BeforeUint64: InsertUint64 and MustInsertUint64
func SpecC16BeforeUint64() {
	v, n, i := someArray()
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustInsertUint64(x).Before(i)
	} else {
		got, err := v.InsertUint64(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16BeforeUint32: InsertUint32 and MustInsertUint32
func SpecC16BeforeUint32() {
	v, n, i := someArray()
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustInsertUint32(x).Before(i)
	} else {
		got, err := v.InsertUint32(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16BeforeFloat64: InsertFloat64 and MustInsertFloat64
func SpecC16BeforeFloat64() {
	v, n, i := someArray()
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustInsertFloat64(x).Before(i)
	} else {
		got, err := v.InsertFloat64(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16BeforeFloat32: InsertFloat32 and MustInsertFloat32
func SpecC16BeforeFloat32() {
	v, n, i := someArray()
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustInsertFloat32(x).Before(i)
	} else {
		got, err := v.InsertFloat32(x).Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16BeforeNull: InsertNull and MustInsertNull
func SpecC16BeforeNull() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertNull().Before(i)
	} else {
		got, err := v.InsertNull().Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16BeforeObject: InsertObject and MustInsertObject
func SpecC16BeforeObject() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertObject().Before(i)
	} else {
		got, err := v.InsertObject().Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16BeforeArray: InsertArray and MustInsertArray
func SpecC16BeforeArray() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertArray().Before(i)
	} else {
		got, err := v.InsertArray().Before(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16AfterString: InsertString and MustInsertString
func SpecC16AfterString() {
	v, n, i := someArray()
	x := AnyString("x")
	if AnyBool("must") {
		v.MustInsertString(x).After(i)
	} else {
		got, err := v.InsertString(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16AfterBool: InsertBool and MustInsertBool
func SpecC16AfterBool() {
	v, n, i := someArray()
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustInsertBool(x).After(i)
	} else {
		got, err := v.InsertBool(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16AfterInt: InsertInt and MustInsertInt
func SpecC16AfterInt() {
	v, n, i := someArray()
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustInsertInt(x).After(i)
	} else {
		got, err := v.InsertInt(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16AfterInt64: InsertInt64 and MustInsertInt64
func SpecC16AfterInt64() {
	v, n, i := someArray()
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustInsertInt64(x).After(i)
	} else {
		got, err := v.InsertInt64(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16AfterInt32: InsertInt32 and MustInsertInt32
func SpecC16AfterInt32() {
	v, n, i := someArray()
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustInsertInt32(x).After(i)
	} else {
		got, err := v.InsertInt32(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16AfterUint: InsertUint and MustInsertUint
func SpecC16AfterUint() {
	v, n, i := someArray()
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustInsertUint(x).After(i)
	} else {
		got, err := v.InsertUint(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16AfterUint64: InsertUint64 and MustInsertUint64
func SpecC16AfterUint64() {
	v, n, i := someArray()
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustInsertUint64(x).After(i)
	} else {
		got, err := v.InsertUint64(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16AfterUint32: InsertUint32 and MustInsertUint32
func SpecC16AfterUint32() {
	v, n, i := someArray()
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustInsertUint32(x).After(i)
	} else {
		got, err := v.InsertUint32(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16AfterFloat64: InsertFloat64 and MustInsertFloat64
func SpecC16AfterFloat64() {
	v, n, i := someArray()
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustInsertFloat64(x).After(i)
	} else {
		got, err := v.InsertFloat64(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16AfterFloat32: InsertFloat32 and MustInsertFloat32
func SpecC16AfterFloat32() {
	v, n, i := someArray()
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustInsertFloat32(x).After(i)
	} else {
		got, err := v.InsertFloat32(x).After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16AfterNull: InsertNull and MustInsertNull
func SpecC16AfterNull() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertNull().After(i)
	} else {
		got, err := v.InsertNull().After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16AfterObject: InsertObject and MustInsertObject
func SpecC16AfterObject() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertObject().After(i)
	} else {
		got, err := v.InsertObject().After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16AfterArray: InsertArray and MustInsertArray
func SpecC16AfterArray() {
	v, n, i := someArray()
	if AnyBool("must") {
		v.MustInsertArray().After(i)
	} else {
		got, err := v.InsertArray().After(i)
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, i+1))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, i+1)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16BeginningString: AppendString and MustAppendString
func SpecC16BeginningString() {
	v, n, i := someArray()
	_ = i
	x := AnyString("x")
	if AnyBool("must") {
		v.MustAppendString(x).InTheBeginning()
	} else {
		got, err := v.AppendString(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16BeginningBytes: AppendBytes and MustAppendBytes
func SpecC16BeginningBytes() {
	v, n, i := someArray()
	_ = i
	x := AnyBytes("x")
	if AnyBool("must") {
		v.MustAppendBytes(x).InTheBeginning()
	} else {
		got, err := v.AppendBytes(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == base64.StdEncoding.EncodeToString(x))
}

// SpecC16BeginningBool: AppendBool and MustAppendBool
func SpecC16BeginningBool() {
	v, n, i := someArray()
	_ = i
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustAppendBool(x).InTheBeginning()
	} else {
		got, err := v.AppendBool(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16BeginningInt: AppendInt and MustAppendInt
func SpecC16BeginningInt() {
	v, n, i := someArray()
	_ = i
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustAppendInt(x).InTheBeginning()
	} else {
		got, err := v.AppendInt(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16BeginningInt64: AppendInt64 and MustAppendInt64
func SpecC16BeginningInt64() {
	v, n, i := someArray()
	_ = i
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustAppendInt64(x).InTheBeginning()
	} else {
		got, err := v.AppendInt64(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16BeginningInt32: AppendInt32 and MustAppendInt32
func SpecC16BeginningInt32() {
	v, n, i := someArray()
	_ = i
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustAppendInt32(x).InTheBeginning()
	} else {
		got, err := v.AppendInt32(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16BeginningUint: AppendUint and MustAppendUint
func SpecC16BeginningUint() {
	v, n, i := someArray()
	_ = i
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustAppendUint(x).InTheBeginning()
	} else {
		got, err := v.AppendUint(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16BeginningUint64: AppendUint64 and MustAppendUint64
func SpecC16BeginningUint64() {
	v, n, i := someArray()
	_ = i
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustAppendUint64(x).InTheBeginning()
	} else {
		got, err := v.AppendUint64(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16BeginningUint32: AppendUint32 and MustAppendUint32
func SpecC16BeginningUint32() {
	v, n, i := someArray()
	_ = i
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustAppendUint32(x).InTheBeginning()
	} else {
		got, err := v.AppendUint32(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16BeginningFloat64: AppendFloat64 and MustAppendFloat64
func SpecC16BeginningFloat64() {
	v, n, i := someArray()
	_ = i
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustAppendFloat64(x).InTheBeginning()
	} else {
		got, err := v.AppendFloat64(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16BeginningFloat32: AppendFloat32 and MustAppendFloat32
func SpecC16BeginningFloat32() {
	v, n, i := someArray()
	_ = i
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustAppendFloat32(x).InTheBeginning()
	} else {
		got, err := v.AppendFloat32(x).InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16BeginningNull: AppendNull and MustAppendNull
func SpecC16BeginningNull() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendNull().InTheBeginning()
	} else {
		got, err := v.AppendNull().InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16BeginningObject: AppendObject and MustAppendObject
func SpecC16BeginningObject() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendObject().InTheBeginning()
	} else {
		got, err := v.AppendObject().InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16BeginningArray: AppendArray and MustAppendArray
func SpecC16BeginningArray() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendArray().InTheBeginning()
	} else {
		got, err := v.AppendArray().InTheBeginning()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, 0))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, 0)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16EndString: AppendString and MustAppendString
func SpecC16EndString() {
	v, n, i := someArray()
	_ = i
	x := AnyString("x")
	if AnyBool("must") {
		v.MustAppendString(x).InTheEnd()
	} else {
		got, err := v.AppendString(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == x)
}

// SpecC16EndBytes: AppendBytes and MustAppendBytes
func SpecC16EndBytes() {
	v, n, i := someArray()
	_ = i
	x := AnyBytes("x")
	if AnyBool("must") {
		v.MustAppendBytes(x).InTheEnd()
	} else {
		got, err := v.AppendBytes(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.String && m.String() == base64.StdEncoding.EncodeToString(x))
}

// SpecC16EndBool: AppendBool and MustAppendBool
func SpecC16EndBool() {
	v, n, i := someArray()
	_ = i
	x := AnyBool("x")
	if AnyBool("must") {
		v.MustAppendBool(x).InTheEnd()
	} else {
		got, err := v.AppendBool(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Boolean && m.Bool() == x)
}

// SpecC16EndInt: AppendInt and MustAppendInt
func SpecC16EndInt() {
	v, n, i := someArray()
	_ = i
	x := AnyInt("x")
	if AnyBool("must") {
		v.MustAppendInt(x).InTheEnd()
	} else {
		got, err := v.AppendInt(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int() == x && m.IsNegative() == (x < 0))
}

// SpecC16EndInt64: AppendInt64 and MustAppendInt64
func SpecC16EndInt64() {
	v, n, i := someArray()
	_ = i
	x := AnyInt64("x")
	if AnyBool("must") {
		v.MustAppendInt64(x).InTheEnd()
	} else {
		got, err := v.AppendInt64(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int64() == x && m.IsNegative() == (x < 0))
}

// SpecC16EndInt32: AppendInt32 and MustAppendInt32
func SpecC16EndInt32() {
	v, n, i := someArray()
	_ = i
	x := AnyInt32("x")
	if AnyBool("must") {
		v.MustAppendInt32(x).InTheEnd()
	} else {
		got, err := v.AppendInt32(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Int32() == x && m.Int64() == int64(x) && m.IsNegative() == (x < 0))
}

// SpecC16EndUint: AppendUint and MustAppendUint
func SpecC16EndUint() {
	v, n, i := someArray()
	_ = i
	x := AnyUint("x")
	if AnyBool("must") {
		v.MustAppendUint(x).InTheEnd()
	} else {
		got, err := v.AppendUint(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint() == x && !m.IsNegative())
}

// SpecC16EndUint64: AppendUint64 and MustAppendUint64
func SpecC16EndUint64() {
	v, n, i := someArray()
	_ = i
	x := AnyUint64("x")
	if AnyBool("must") {
		v.MustAppendUint64(x).InTheEnd()
	} else {
		got, err := v.AppendUint64(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint64() == x && !m.IsNegative())
}

// SpecC16EndUint32: AppendUint32 and MustAppendUint32
func SpecC16EndUint32() {
	v, n, i := someArray()
	_ = i
	x := AnyUint32("x")
	if AnyBool("must") {
		v.MustAppendUint32(x).InTheEnd()
	} else {
		got, err := v.AppendUint32(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.IsInteger() && m.Uint32() == x && m.Uint64() == uint64(x) && !m.IsNegative())
}

// SpecC16EndFloat64: AppendFloat64 and MustAppendFloat64
func SpecC16EndFloat64() {
	v, n, i := someArray()
	_ = i
	x := AnyFiniteFloat64("x")
	if AnyBool("must") {
		v.MustAppendFloat64(x).InTheEnd()
	} else {
		got, err := v.AppendFloat64(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && m.Float64() == x && m.String() == jsonvalue.NewFloat64(x).String())
}

// SpecC16EndFloat32: AppendFloat32 and MustAppendFloat32
func SpecC16EndFloat32() {
	v, n, i := someArray()
	_ = i
	x := AnyFloat32("x")
	if AnyBool("must") {
		v.MustAppendFloat32(x).InTheEnd()
	} else {
		got, err := v.AppendFloat32(x).InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Number && (m.Float32() == x || x != x) && m.String() == jsonvalue.NewFloat32(x).String())
}

// SpecC16EndNull: AppendNull and MustAppendNull
func SpecC16EndNull() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendNull().InTheEnd()
	} else {
		got, err := v.AppendNull().InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Null)
}

// SpecC16EndObject: AppendObject and MustAppendObject
func SpecC16EndObject() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendObject().InTheEnd()
	} else {
		got, err := v.AppendObject().InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Object && Count(m) == 0)
}

// SpecC16EndArray: AppendArray and MustAppendArray
func SpecC16EndArray() {
	v, n, i := someArray()
	_ = i
	if AnyBool("must") {
		v.MustAppendArray().InTheEnd()
	} else {
		got, err := v.AppendArray().InTheEnd()
		Assert("the operation succeeds and returns the member", err == nil && got == Elem(v, n))
	}
	Assert("exactly one member is set", Len(v) == n+1)
	m := Elem(v, n)
	Assert("the member has the given type and value", Kind(m) == jsonvalue.Array && Len(m) == 0)
}

// SpecC16MustFails: a failing operation without an error result has no effect either
func SpecC16MustFails() {
	v := AnyV("v")
	i := AnyInt("i")
	c := AnyV("c")
	if Kind(v) == jsonvalue.Array {
		n := Len(v)
		Assume(i < -n || i > n)
	} else {
		Assume(Kind(v) != jsonvalue.Object)
	}
	switch AnyInt("op") {
	case 0:
		v.MustSet(c).At(i)
	case 1:
		v.MustInsert(c).Before(i)
	case 2:
		v.MustInsert(c).After(i)
	case 3:
		v.MustAppend(c).InTheBeginning(i)
	case 4:
		v.MustAppend(c).InTheEnd(i)
	case 5:
		v.MustDelete(i)
	default:
		v.At(i).Set(c)
	}
	AssertUntouched("nothing changes")
}

// SpecC16MustDelete: deleting without an error result
func SpecC16MustDelete() {
	if AnyBool("array") {
		v, n, i := someArray()
		k := AnyInt("k")
		Assume(0 <= k && k < n)
		old := Elem(v, k)
		v.MustDelete(i)
		Assert("the array is one shorter", Len(v) == n-1)
		if k < i {
			Assert("those in front stay", Elem(v, k) == old)
		}
		if k > i {
			Assert("those behind move", Elem(v, k-1) == old)
		}
		return
	}
	v := object("v")
	key := AnyString("key")
	n := Count(v)
	Assume(Has(v, key))
	v.MustDelete(key)
	Assert("the member is deleted", !Has(v, key) && Count(v) == n-1)
}

// SpecC16AtSet: v.At(path).Set(c) sets as v.Set(c).At(path)
func SpecC16AtSet() {
	c := AnyV("c")
	if AnyBool("array") {
		v, n, i := someArray()
		v.At(i).Set(c)
		Assert("the element is set", Len(v) == n && Elem(v, i) == c)
		return
	}
	v := object("v")
	key, sub := AnyString("key"), AnyString("sub")
	if AnyBool("deep") {
		Assume(!Has(v, key))
		v.At(key, sub).Set(c)
		Assert("the member of the member is set", Has(v, key) && Kind(Member(v, key)) == jsonvalue.Object && Member(Member(v, key), sub) == c)
		return
	}
	v.At(key).Set(c)
	Assert("the member is set", Member(v, key) == c)
}

// SpecC16Delegated: variants without an error result with a longer path
func SpecC16Delegated() {
	v := object("v")
	key := AnyString("key")
	Assume(Has(v, key))
	a := Member(v, key)
	Assume(Kind(a) == jsonvalue.Array)
	n := Len(a)
	i := AnyInt("i")
	Assume(0 <= i && i < n)
	c := AnyV("c")
	switch AnyInt("op") {
	case 0:
		v.MustSet(c).At(key, i)
		Assert("the element is set", Len(a) == n && Elem(a, i) == c)
	case 1:
		v.MustInsert(c).Before(key, i)
		Assert("the element is inserted before", Len(a) == n+1 && Elem(a, i) == c)
	case 2:
		v.MustInsert(c).After(key, i)
		Assert("the element is inserted behind", Len(a) == n+1 && Elem(a, i+1) == c)
	case 3:
		v.MustAppend(c).InTheBeginning(key)
		Assert("the element is the first", Len(a) == n+1 && Elem(a, 0) == c)
	case 4:
		v.MustAppend(c).InTheEnd(key)
		Assert("the element is the last", Len(a) == n+1 && Elem(a, n) == c)
	default:
		v.MustDelete(key, i)
		Assert("the element is deleted", Len(a) == n-1)
	}
}


// SpecC16GoValues: a member given as a Go value
func SpecC16GoValues() {
	v := object("v")
	key := AnyString("key")
	switch AnyInt("type") {
	case 0:
		x := AnyString("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a string is stored", err == nil && Kind(m) == jsonvalue.String && m.String() == x)
	case 1:
		x := AnyInt("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Int() == x)
	case 2:
		x := AnyUint64("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("an unsigned number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Uint64() == x)
	case 3:
		x := AnyBool("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a boolean is stored", err == nil && Kind(m) == jsonvalue.Boolean && m.Bool() == x)
	case 4:
		x := AnyFiniteFloat64("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a float is stored", err == nil && Kind(m) == jsonvalue.Number && m.Float64() == x)
	case 5:
		x := AnyInt8("x")
		_, err := v.Set(x).At(key)
		m := Member(v, key)
		Assert("a short number is stored", err == nil && Kind(m) == jsonvalue.Number && m.Int() == int(x))
	}
}
