package spec

import (
	"encoding"
	"encoding/json"
	"reflect"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// plain assumes that values like x have no conversion of their own.
func plain(x interface{}) reflect.Value {
	t := reflect.TypeOf(x)
	jm, tm := reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	Assume(!t.Implements(jm) && !t.Implements(tm))
	p := reflect.PtrTo(t)
	Assume(!p.Implements(jm) && !p.Implements(tm))
	return reflect.ValueOf(x)
}

// SpecC24Unsupported: values of the kinds which JSON has nothing for
func SpecC24Unsupported() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	switch v.Kind() {
	case reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.UnsafePointer:
	default:
		return
	}
	_, err := jsonvalue.Import(x)
	Assert("a value of an unsupported kind is refused", err != nil)
}

// SpecC24MapKey: maps whose keys cannot be keys of objects
func SpecC24MapKey() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Map)
	switch reflect.TypeOf(x).Key().Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return
	}
	_, err := jsonvalue.Import(x)
	Assert("a map with unsupported keys is refused", err != nil)
}

// part imports x and checks that a failing part fails the whole.
func part(x interface{}) (*jsonvalue.V, bool) {
	failed := false
	SubImports(func(_ reflect.Value, err error) {
		if err != nil {
			failed = true
		}
	})
	v, err := jsonvalue.Import(x)
	Assert("a part which fails makes the whole fail", !failed || err != nil)
	return v, err == nil
}

// SpecC24Array: every element of an array is in the result
func SpecC24Array() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Array)
	n := v.Len()
	Assume(n >= 0)
	if r, ok := part(x); ok {
		Assert("as many elements as the array has", Kind(r) == jsonvalue.Array && Len(r) == n)
	}
}

// SpecC24Slice: every element of a slice is in the result
func SpecC24Slice() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Slice)
	Assume(reflect.TypeOf(x) != reflect.TypeOf([]byte{}))
	n := v.Len()
	Assume(n >= 0)
	if r, ok := part(x); ok {
		Assert("as many elements as the slice has", Kind(r) == jsonvalue.Array && (v.IsNil() || Len(r) == n))
	}
}

// SpecC24Ptr: what a pointer points to
func SpecC24Ptr() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Ptr)
	if !v.IsNil() {
		t := v.Elem().Type()
		jm, tm := reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
		Assume(!t.Implements(jm) && !t.Implements(tm))
	}
	part(x)
}

// SpecC24Struct: every field
func SpecC24Struct() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Struct)
	part(x)
}

// mapOf imports a map whose keys are of one of the kinds; q is an entry of it
func mapOf(ks ...reflect.Kind) (r *jsonvalue.V, key reflect.Value, ok bool) {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Map)
	k := reflect.TypeOf(x).Key().Kind()
	found := false
	for _, o := range ks {
		if k == o {
			found = true
		}
	}
	Assume(found)
	keys := v.MapKeys()
	q := AnyInt("q")
	Assume(0 <= q && q < len(keys))
	key = keys[q]
	r, ok = part(x)
	return r, key, ok && !v.IsNil()
}

// SpecC24MapString: every entry of a map with strings as keys is in the result
func SpecC24MapString() {
	if r, key, ok := mapOf(reflect.String); ok {
		Assert("every entry of the map is in the object", Kind(r) == jsonvalue.Object && Has(r, key.String()))
	}
}

// SpecC24MapInt: integers as keys
func SpecC24MapInt() {
	if r, key, ok := mapOf(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64); ok {
		Assert("every entry of the map is in the object", Kind(r) == jsonvalue.Object && Has(r, strconv.FormatInt(key.Int(), 10)))
	}
}

// SpecC24MapUint: unsigned integers as keys
func SpecC24MapUint() {
	if r, key, ok := mapOf(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr); ok {
		Assert("every entry of the map is in the object", Kind(r) == jsonvalue.Object && Has(r, strconv.FormatUint(key.Uint(), 10)))
	}
}

// SpecC24StructAll: an arbitrary field, if other packages may read it, is converted
func SpecC24StructAll() {
	x := AnyIface("x")
	Assume(x != nil)
	v := plain(x)
	Assume(v.Kind() == reflect.Struct)
	q := AnyInt("q")
	Assume(0 <= q && q < v.NumField())
	f := v.Field(q)
	Assume(f.CanInterface())
	seen := false
	SubImports(func(part reflect.Value, err error) {
		if part == f {
			seen = true
		}
	})
	_, err := jsonvalue.Import(x)
	Assert("no field is left out", err != nil || seen)
}
