// Package spec describes the inputs and obligations of the analysis. It is type-checked together with the
// repository and analysed; it is never compiled or run.
package spec

import (
	"reflect"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Unknown inputs.
func AnyInt(name string) int                  { return 0 }
func AnyInt8(name string) int8                { return 0 }
func AnyInt16(name string) int16              { return 0 }
func AnyInt32(name string) int32              { return 0 }
func AnyInt64(name string) int64              { return 0 }
func AnyUint(name string) uint                { return 0 }
func AnyUint8(name string) uint8              { return 0 }
func AnyUint16(name string) uint16            { return 0 }
func AnyUint32(name string) uint32            { return 0 }
func AnyUint64(name string) uint64            { return 0 }
func AnyFloat64(name string) float64          { return 0 }
func AnyFiniteFloat64(name string) float64    { return 0 }
func AnyFloat32(name string) float32          { return 0 }
func AnyBool(name string) bool                { return false }
func AnyString(name string) string            { return "" }
func AnyBytes(name string) []byte             { return nil }
func AnyIface(name string) interface{}        { return nil }
func AnyError(name string) error              { return nil }
func AnyIfaces(name string) []interface{}     { return nil }
func AnyVs(name string) []*jsonvalue.V        { return nil }
func AnyStrings(name string) []string         { return nil }

// AnyV is an initialised value, AnyRawV may be nil or uninitialised.
func AnyV(name string) *jsonvalue.V    { return nil }
func AnyRawV(name string) *jsonvalue.V { return nil }
func AnyRawOpt(name string) *jsonvalue.Opt { return nil }
func AnyOpt(name string) *jsonvalue.Opt    { return nil }

// Obligations.
func Assume(cond bool)               {}
func Assert(id string, cond bool)    {}
func AssertUntouched(id string)      {}
func Unreachable(id string)          {}
func NoPanic()                       {}
func Split(cond bool)                {}

// Observers of the representation.
func Kind(v *jsonvalue.V) jsonvalue.ValueType             { return 0 }
func Len(v *jsonvalue.V) int                              { return 0 }
func Elem(v *jsonvalue.V, i int) *jsonvalue.V             { return nil }
func Count(v *jsonvalue.V) int                            { return 0 }
func Has(v *jsonvalue.V, key string) bool                 { return false }
func Member(v *jsonvalue.V, key string) *jsonvalue.V      { return nil }
func Seq(v *jsonvalue.V, key string) uint32               { return 0 }

// Merge applies an option, Combined makes the options of a call; SameOpt compares settings.
func Merge(o *jsonvalue.Opt, x jsonvalue.Option)              {}
func Combined(xs []jsonvalue.Option) *jsonvalue.Opt           { return nil }
func SameOpt(a, b *jsonvalue.Opt) bool                        { return false }
func AnyLess(name string) jsonvalue.MarshalLessFunc           { return nil }

// Recursion says what a recursive call of a function with f's signature does; UFBool and UFV are unknown functions.
func Recursion(f interface{})                                 {}
func UFBool(name string, vs ...*jsonvalue.V) bool             { return false }
func UFV(name string, vs ...*jsonvalue.V) *jsonvalue.V        { return nil }

// SubImports has conversions of parts of a reflected value return anything; f is told each part and its error.
func SubImports(f func(part reflect.Value, err error))        {}

// PartsAsWhole says that a conversion of a part with the settings of the whole gives a value or an error.
func PartsAsWhole()                                           {}

// Twin says that b has the same members as a, each equal to a's.
func Twin(a, b *jsonvalue.V)                                  {}

// HasText tells whether a number has a text, which it has exactly if it is finite.
func HasText(v *jsonvalue.V) bool                             { return false }

// EscapingIsAFunction lets the function which escapes a text write Escaped(text), an unknown function of it.
func EscapingIsAFunction()                                    {}
func Escaped(s string) string                                 { return "" }

// Spells tells whether the text is one by which strconv or encoding/json write the number.
func Spells(text string, f float64) bool                      { return false }

// OneOf tells whether a character is one of a set. Watch proposes, for loops that run over positions, that every
// position passed so far, from lo on, satisfies a condition about the position q.
func OneOf(c byte, set string) bool                           { return false }
func Watch(lo, q int, cond bool)                                {}

// Output has everything that is written to a buffer told to observers: single characters, texts written in escaped
// form, other texts, and parts which a recursive call writes (with the error of writing it). Written is the result, and
// Blank says that a text consists of blanks.
func Output(char func(c byte), escaped func(s string), other func(s string), child func(v *jsonvalue.V, err error)) {}
func Written() string                                         { return "" }
func Blank(s string)                                          {}

// WatchKey proposes, for loops that run over the keys of an object in any order, that the key satisfies a condition once
// it was passed.
func WatchKey(q string, cond bool)                            {}

// WatchSorting has the comparison of a sort asked about two arbitrary positions, of which SortPair tells.
func WatchSorting()                                           {}
func SortPair() (int, int)                                    { return 0, 0 }

// AssertPermuted: nothing is changed but the order of v's elements.
func AssertPermuted(id string, v *jsonvalue.V)                {}

// Counter is what the next sequence number of an object is made of. WatchOrder has sorts, whose comparison must be an
// order of elements with different sequence numbers, asked about the order of keys p and q of v.
func Counter(v *jsonvalue.V) uint32                           { return 0 }
func WatchOrder(v *jsonvalue.V, p, q string)                  {}

// ReadOnly: from here on nothing is stored to what was there before, not even the same value.
func ReadOnly(id string)                                      {}

// Summary says what any call of a function of the library with f's signature, other than by the driver, does; drivers of
// its own decide such a function.
func Summary(f interface{})                                   {}
