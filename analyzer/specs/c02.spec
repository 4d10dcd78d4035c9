package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

const blanks = " \r\n\t\b"

// parse is one of the parsing functions
func parse(b []byte) (*jsonvalue.V, error) {
	if AnyBool("copy") {
		return jsonvalue.Unmarshal(b)
	}
	return jsonvalue.UnmarshalNoCopy(b)
}

// trailing is an arbitrary text and a position in it from n on
func trailing(n int) ([]byte, int) {
	b := AnyBytes("b")
	q := AnyInt("q")
	Assume(q >= n && q < len(b))
	Watch(n, q, OneOf(b[q], blanks))
	return b, q
}

// A text which starts like a literal parses only as that literal, spelled in full and followed by blanks.
func SpecC02True() {
	b, q := trailing(4)
	Assume(b[0] == 't')
	ok := b[1] == 'r' && b[2] == 'u' && b[3] == 'e'
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("true is spelled in full", ok)
		Assert("true is true", Kind(v) == jsonvalue.Boolean && v.Bool())
		Assert("only blanks follow true", blank)
	}
}

func SpecC02False() {
	b, q := trailing(5)
	Assume(b[0] == 'f')
	ok := b[1] == 'a' && b[2] == 'l' && b[3] == 's' && b[4] == 'e'
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("false is spelled in full", ok)
		Assert("false is false", Kind(v) == jsonvalue.Boolean && !v.Bool())
		Assert("only blanks follow false", blank)
	}
}

func SpecC02Null() {
	b, q := trailing(4)
	Assume(b[0] == 'n')
	ok := b[1] == 'u' && b[2] == 'l' && b[3] == 'l'
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("null is spelled in full", ok)
		Assert("null is null", Kind(v) == jsonvalue.Null)
		Assert("only blanks follow null", blank)
	}
}

// A literal which is cut short by the end of the text is an error.
func SpecC02Short() {
	b := AnyBytes("b")
	Assume(len(b) > 0)
	c := b[0]
	Assume(c == 't' && len(b) < 4 || c == 'f' && len(b) < 5 || c == 'n' && len(b) < 4 || (c == '{' || c == '[' || c == '"' || c == '-') && len(b) < 2)
	_, err := jsonvalue.UnmarshalNoCopy(b)
	Assert("a value which is cut short is an error", err != nil)
}

// Nothing but blanks may follow any kind of value.
func SpecC02AfterObject() {
	b, q := trailing(2)
	Assume(b[0] == '{' && b[1] == '}')
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("an empty object", Kind(v) == jsonvalue.Object && Count(v) == 0)
		Assert("only blanks follow an object", blank)
	}
}

func SpecC02AfterArray() {
	b, q := trailing(2)
	Assume(b[0] == '[' && b[1] == ']')
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("an empty array", Kind(v) == jsonvalue.Array && Len(v) == 0)
		Assert("only blanks follow an array", blank)
	}
}

func SpecC02AfterString() {
	b, q := trailing(2)
	Assume(b[0] == '"' && b[1] == '"')
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("an empty string", Kind(v) == jsonvalue.String && v.String() == "")
		Assert("only blanks follow a string", blank)
	}
}

func SpecC02AfterNumber() {
	b, q := trailing(1)
	Assume(b[0] == '7')
	Assume(OneOf(b[1], blanks) || OneOf(b[1], ",]}:\"tfn{[x"))
	blank := OneOf(b[q], blanks)
	v, err := parse(b)
	if err == nil {
		Assert("a number", Kind(v) == jsonvalue.Number && v.Int() == 7)
		Assert("only blanks follow a number", blank)
	}
}

// Only blanks precede a value, and a text without any value is an error.
func SpecC02Blank() {
	b := AnyBytes("b")
	Assume(len(b) > 0)
	c := b[0]
	Assume(!OneOf(c, blanks) && !OneOf(c, "{[\"tfn-0123456789"))
	_, err := parse(b)
	Assert("no value starts with another character", err != nil)
}

// Literals inside arrays and objects
func SpecC02ArrayTrue() {
	b := [6]byte{'[', AnyUint8("x0"), AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), ']'}
	Assume(b[1] == 't')
	ok := b[2] == 'r' && b[3] == 'u' && b[4] == 'e'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal true of an array is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the array has it", Len(v) == 1 && Kind(Elem(v, 0)) == jsonvalue.Boolean && Elem(v, 0).Bool())
	}
}

func SpecC02ArrayFalse() {
	b := [7]byte{'[', 'f', AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), AnyUint8("x4"), ']'}
	ok := b[2] == 'a' && b[3] == 'l' && b[4] == 's' && b[5] == 'e'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal false of an array is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the array has it", Len(v) == 1 && Kind(Elem(v, 0)) == jsonvalue.Boolean && !Elem(v, 0).Bool())
	}
}

func SpecC02ArrayNull() {
	b := [6]byte{'[', 'n', AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), ']'}
	ok := b[2] == 'u' && b[3] == 'l' && b[4] == 'l'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal null of an array is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the array has it", Len(v) == 1 && Kind(Elem(v, 0)) == jsonvalue.Null)
	}
}

func SpecC02ObjectTrue() {
	b := [10]byte{'{', '"', 'a', '"', ':', 't', AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), '}'}
	ok := b[6] == 'r' && b[7] == 'u' && b[8] == 'e'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal true of an object is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the object has it", Count(v) == 1 && Has(v, "a") && Kind(Member(v, "a")) == jsonvalue.Boolean && Member(v, "a").Bool())
	}
}

func SpecC02ObjectFalse() {
	b := [11]byte{'{', '"', 'a', '"', ':', 'f', AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), AnyUint8("x4"), '}'}
	ok := b[6] == 'a' && b[7] == 'l' && b[8] == 's' && b[9] == 'e'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal false of an object is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the object has it", Count(v) == 1 && Has(v, "a") && Kind(Member(v, "a")) == jsonvalue.Boolean && !Member(v, "a").Bool())
	}
}

func SpecC02ObjectNull() {
	b := [10]byte{'{', '"', 'a', '"', ':', 'n', AnyUint8("x1"), AnyUint8("x2"), AnyUint8("x3"), '}'}
	ok := b[6] == 'u' && b[7] == 'l' && b[8] == 'l'
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a literal null of an object is spelled in full", (err == nil) == ok)
	if err == nil {
		Assert("the object has it", Count(v) == 1 && Has(v, "a") && Kind(Member(v, "a")) == jsonvalue.Null)
	}
}

// Containers must be closed, by their own bracket.
func SpecC02Unclosed() {
	x := AnyUint8("x")
	a := [2]byte{'[', x}
	_, err := jsonvalue.UnmarshalNoCopy(a[:])
	Assert("an array is closed by a bracket", (err == nil) == (x == ']'))
}

func SpecC02UnclosedObject() {
	x := AnyUint8("x")
	b := [2]byte{'{', x}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("an object is closed by a brace", (err == nil) == (x == '}'))
}

func SpecC02UnclosedMore() {
	x := AnyUint8("x")
	a := [4]byte{'[', '[', ']', x}
	_, err := jsonvalue.UnmarshalNoCopy(a[:])
	Assert("an array of an array is closed", (err == nil) == (x == ']'))
}

func SpecC02UnclosedOuter() {
	x := AnyUint8("x")
	b := [4]byte{'[', '{', '}', x}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("an array of an object is closed", (err == nil) == (x == ']'))
	c := [4]byte{'[', '"', '"', x}
	_, err = jsonvalue.UnmarshalNoCopy(c[:])
	Assert("an array of a string is closed", (err == nil) == (x == ']'))
}

// Inner containers which are not closed by their own bracket
func SpecC02Crossed() {
	x, y := AnyUint8("x"), AnyUint8("y")
	a := [4]byte{'[', '{', x, y}
	Assume(x == ']' || x == '}')
	_, err := jsonvalue.UnmarshalNoCopy(a[:])
	Assert("brackets match", (err == nil) == (x == '}' && y == ']'))
	b := [7]byte{'{', '"', 'a', '"', ':', '[', x}
	_, err = jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member which is not closed fails the object", err != nil)
}

// A key needs a colon and a value.
func SpecC02Colon() {
	x := AnyUint8("x")
	b := [7]byte{'{', '"', 'a', '"', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a colon separates key and value", (err == nil) == (x == ':'))
}

func SpecC02Value() {
	x := AnyUint8("x")
	b := [7]byte{'{', '"', 'a', '"', ':', x, '}'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a value follows the colon", (err == nil) == (x >= '0' && x <= '9'))
	if err == nil {
		Assert("the member has the value", Count(v) == 1 && Has(v, "a") && Member(v, "a").Int() == int(x-'0'))
	}
}

func SpecC02KeyOnly() {
	x := AnyUint8("x")
	b := [5]byte{'{', '"', 'a', '"', x}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a key without a value is an error", err != nil)
	c := [6]byte{'{', '"', 'a', '"', x, '}'}
	_, err = jsonvalue.UnmarshalNoCopy(c[:])
	Assert("a key without a value is an error before the brace", err != nil)
}

func SpecC02NoKey() {
	x := AnyUint8("x")
	b := [3]byte{'{', x, '}'}
	Assume(!OneOf(x, blanks) && x != ',')
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a value without a key is an error", err != nil)
	c := [4]byte{'{', ':', x, '}'}
	_, err = jsonvalue.UnmarshalNoCopy(c[:])
	Assert("a colon without a key is an error", err != nil)
}

// The text of a number
func SpecC02Number() {
	x, y := AnyUint8("x"), AnyUint8("y")
	b := [4]byte{'[', x, y, ']'}
	Assume(y != 'e' && y != 'E')
	Assume(x == '-' || x >= '0' && x <= '9')
	digit := y >= '0' && y <= '9'
	var ok bool
	switch {
	case x == '-':
		ok = digit
	case x == '0':
		ok = OneOf(y, blanks) || y == ','
	default:
		ok = digit || OneOf(y, blanks) || y == ','
	}
	Assume(y != ']' && y != '"' && y != '[' && y != '{')
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a number of two characters", (err == nil) == ok)
	if err == nil {
		Assert("one number in the array", Len(v) == 1 && Kind(Elem(v, 0)) == jsonvalue.Number)
	}
}

// A string must be closed by a quote.
func SpecC02OpenString() {
	x, y := AnyUint8("x"), AnyUint8("y")
	Assume(x != '"' && y != '"' && x != '\\' && y != '\\')
	b := [3]byte{'"', x, y}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a string without a closing quote is an error", err != nil)
}

// An escaped quote does not close a string.
func SpecC02OpenEscaped() {
	x := AnyUint8("x")
	b := [3]byte{'"', '\\', x}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a string which ends in an escape is an error", err != nil)
}

// The second member needs its own colon and value.
func SpecC02SecondColon() {
	x := AnyUint8("x")
	b := [13]byte{'{', '"', 'a', '"', ':', '1', ',', '"', 'b', '"', x, '2', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a colon separates the second key and value", (err == nil) == (x == ':'))
}

func SpecC02SecondValue() {
	x := AnyUint8("x")
	b := [13]byte{'{', '"', 'a', '"', ':', '1', ',', '"', 'b', '"', ':', x, '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a value follows the second colon", (err == nil) == (x >= '0' && x <= '9'))
}

// A second value for one key is an error, whatever stands between.
func SpecC02AfterTrueValue() {
	x := AnyUint8("x")
	b := [12]byte{'{','"','a','"',':','t','r','u','e', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterFalseValue() {
	x := AnyUint8("x")
	b := [13]byte{'{','"','a','"',':','f','a','l','s','e', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterNullValue() {
	x := AnyUint8("x")
	b := [12]byte{'{','"','a','"',':','n','u','l','l', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterObjectValue() {
	x := AnyUint8("x")
	b := [10]byte{'{','"','a','"',':','{','}', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterArrayValue() {
	x := AnyUint8("x")
	b := [10]byte{'{','"','a','"',':','[',']', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterStringValue() {
	x := AnyUint8("x")
	b := [10]byte{'{','"','a','"',':','"','"', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

func SpecC02AfterNumberValue() {
	x := AnyUint8("x")
	Assume(!OneOf(x, ".eE") && (x < '0' || x > '9'))
	b := [9]byte{'{','"','a','"',':','7', x, '1', '}'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a member has one value", err != nil)
}

