package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c) - '0'
	case c >= 'a' && c <= 'f':
		return int(c) - 'a' + 10
	default:
		return int(c) - 'A' + 10
	}
}

// isRune tells whether s is r in UTF-8.
func isRune(s string, r int) bool {
	switch {
	case r < 0x80:
		return len(s) == 1 && int(s[0]) == r
	case r < 0x800:
		return len(s) == 2 && int(s[0]) == 0xC0+r/64 && int(s[1]) == 0x80+r%64
	case r < 0x10000:
		return len(s) == 3 && int(s[0]) == 0xE0+r/4096 && int(s[1]) == 0x80+r/64%64 && int(s[2]) == 0x80+r%64
	default:
		return len(s) == 4 && int(s[0]) == 0xF0+r/262144 && int(s[1]) == 0x80+r/4096%64 && int(s[2]) == 0x80+r/64%64 && int(s[3]) == 0x80+r%64
	}
}

// SpecC03Short: a backslash and one character
func SpecC03Short() {
	x := AnyUint8("x")
	b := [4]byte{'"', '\\', x, '"'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	var want byte
	ok := true
	switch x {
	case '"', '\\', '/':
		want = x
	case 'b':
		want = '\b'
	case 'f':
		want = '\f'
	case 'n':
		want = '\n'
	case 'r':
		want = '\r'
	case 't':
		want = '\t'
	case '\'':
		return
	default:
		ok = false
	}
	Assert("exactly the known escapes are accepted", (err == nil) == ok)
	if ok {
		s := v.String()
		Assert("an escape stands for its character", Kind(v) == jsonvalue.String && len(s) == 1 && s[0] == want)
	}
}

// SpecC03Unicode: four hexadecimal digits stand for their code point
func SpecC03Unicode() {
	x3, x2, x1, x0 := AnyUint8("x3"), AnyUint8("x2"), AnyUint8("x1"), AnyUint8("x0")
	Assume(isHex(x3) && isHex(x2) && isHex(x1) && isHex(x0))
	r := hexVal(x3)*4096 + hexVal(x2)*256 + hexVal(x1)*16 + hexVal(x0)
	Assume(r < 0xD800 || r > 0xDFFF)
	b := [8]byte{'"', '\\', 'u', x3, x2, x1, x0, '"'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("four hexadecimal digits are accepted", err == nil)
	if err == nil {
		Assert("four hexadecimal digits stand for their character", isRune(v.String(), r))
	}
}

// SpecC03BadDigit3 and those below: a character which is no hexadecimal digit, at each of the four places
func SpecC03BadDigit3() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	b := [8]byte{'"', '\\', 'u', x, '1', 'A', 'f', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("the first digit must be hexadecimal", err != nil)
}

func SpecC03BadDigit2() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	b := [8]byte{'"', '\\', 'u', '1', x, 'A', 'f', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("the second digit must be hexadecimal", err != nil)
}

func SpecC03BadDigit1() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	b := [8]byte{'"', '\\', 'u', '0', 'B', x, 'f', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("the third digit must be hexadecimal", err != nil)
}

func SpecC03BadDigit0() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	b := [8]byte{'"', '\\', 'u', '0', '0', 'e', x, '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("the fourth digit must be hexadecimal", err != nil)
}

// badPair: the same in the second half of a pair
func badPair(x3, x2, x1, x0 byte) {
	b := [14]byte{'"', '\\', 'u', 'd', '8', '3', 'D', '\\', 'u', x3, x2, x1, x0, '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a digit of the second half must be hexadecimal", err != nil)
}

func SpecC03BadPair3() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	badPair(x, 'E', '0', '1')
}

func SpecC03BadPair2() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	badPair('d', x, '0', '1')
}

func SpecC03BadPair1() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	badPair('D', 'c', x, '1')
}

func SpecC03BadPair0() {
	x := AnyUint8("x")
	Assume(!isHex(x))
	badPair('D', 'c', '0', x)
}

// pair reads \uHHHH\uLLLL; the second one, in upper or lower case, has its digits from the arguments
func pair(h, l [4]byte) {
	for i := 0; i < 4; i++ {
		Assume(isHex(h[i]))
		Assume(isHex(l[i]))
	}
	hi := hexVal(h[0])*4096 + hexVal(h[1])*256 + hexVal(h[2])*16 + hexVal(h[3])
	lo := hexVal(l[0])*4096 + hexVal(l[1])*256 + hexVal(l[2])*16 + hexVal(l[3])
	Assume(hi >= 0xD800 && hi <= 0xDBFF)
	b := [14]byte{'"', '\\', 'u', h[0], h[1], h[2], h[3], '\\', 'u', l[0], l[1], l[2], l[3], '"'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	ok := lo >= 0xDC00 && lo <= 0xDFFF
	Assert("a high surrogate must be followed by a low one, and may be", (err == nil) == ok)
	if err == nil {
		Assert("a pair of surrogates stands for its character", isRune(v.String(), 0x10000+(hi-0xD800)*1024+(lo-0xDC00)))
	}
}

// SpecC03PairLow: every second half
func SpecC03PairLow() {
	pair([4]byte{'D', '8', '3', 'd'}, [4]byte{AnyUint8("l3"), AnyUint8("l2"), AnyUint8("l1"), AnyUint8("l0")})
}

// SpecC03PairHigh: every first half
func SpecC03PairHigh() {
	pair([4]byte{'d', AnyUint8("h2"), AnyUint8("h1"), AnyUint8("h0")}, [4]byte{'D', 'c', '0', '1'})
}

// SpecC03PairBoth: both at once, for digits below ten
func SpecC03PairBoth() {
	h1, h0, l1, l0 := AnyUint8("h1"), AnyUint8("h0"), AnyUint8("l1"), AnyUint8("l0")
	Assume(h1 <= '9' && h0 <= '9' && l1 <= '9' && l0 <= '9')
	pair([4]byte{'d', 'b', h1, h0}, [4]byte{'d', 'e', l1, l0})
}

// SpecC03LowFirst: a low surrogate first is an error, whatever follows
func SpecC03LowFirst() {
	x2, x1, x0 := AnyUint8("x2"), AnyUint8("x1"), AnyUint8("x0")
	Assume(isHex(x2) && isHex(x1) && isHex(x0) && hexVal(x2) >= 12)
	b := [14]byte{'"', '\\', 'u', 'd', x2, x1, x0, '\\', 'u', 'D', 'c', '0', '0', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a low surrogate cannot come first", err != nil)
}

// SpecC03LowAlone: a low surrogate alone is an error
func SpecC03LowAlone() {
	x2, x1, x0 := AnyUint8("x2"), AnyUint8("x1"), AnyUint8("x0")
	Assume(isHex(x2) && isHex(x1) && isHex(x0) && hexVal(x2) >= 12)
	b := [9]byte{'"', '\\', 'u', 'D', x2, x1, x0, 'n', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a low surrogate cannot stand alone", err != nil)
}

// SpecC03HighAlone: a high surrogate followed by anything but an escape
func SpecC03HighAlone() {
	a, u := AnyUint8("a"), AnyUint8("u")
	Assume(a != '\\' || u != 'u')
	b := [14]byte{'"', '\\', 'u', 'd', '8', '3', 'D', a, u, 'D', 'E', '0', '0', '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a high surrogate cannot stand alone", err != nil)
}

// SpecC03HighLast: a high surrogate at the end of the string
func SpecC03HighLast() {
	x2, x1, x0 := AnyUint8("x2"), AnyUint8("x1"), AnyUint8("x0")
	Assume(isHex(x2) && isHex(x1) && isHex(x0) && hexVal(x2) >= 8 && hexVal(x2) <= 11)
	b := [8]byte{'"', '\\', 'u', 'D', x2, x1, x0, '"'}
	_, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a high surrogate cannot end a string", err != nil)
}

// truncated cuts an escape sequence after n bytes; q ends the string there, if asked
func truncated(n int, quote bool) {
	b := [14]byte{'"', '\\', 'u', 'd', '8', '3', 'D', '\\', 'u', 'D', 'E', '0', '0', '"'}
	if quote {
		b[n] = '"'
		n++
	}
	_, err := jsonvalue.UnmarshalNoCopy(b[:n])
	Assert("a truncated escape sequence is an error", err != nil)
}

// SpecC03Truncated: the text ends within the sequence
func SpecC03Truncated() {
	for n := 1; n < 14; n++ {
		truncated(n, false)
	}
}

// SpecC03Ended: the string ends within the sequence
func SpecC03Ended() {
	for n := 2; n < 13; n++ {
		truncated(n, true)
	}
}

// isLead tells how many bytes a character has which starts with c; 0 when none may.
func size(c byte) int {
	switch {
	case c < 0x80:
		return 1
	case c >= 0xC0 && c < 0xE0:
		return 2
	case c >= 0xE0 && c < 0xF0:
		return 3
	case c >= 0xF0 && c < 0xF8:
		return 4
	default:
		return 0
	}
}

// SpecC03Plain1 and those below: characters of each length, alone
func SpecC03Plain1() {
	x := AnyUint8("x")
	Assume(x < 0x80 && x != '"' && x != '\\')
	b := [3]byte{'"', x, '"'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("a plain character is accepted", err == nil)
	if err == nil {
		s := v.String()
		Assert("a plain character stands for itself", len(s) == 1 && s[0] == x)
	}
}

// bytesAround reads a character of n bytes between two escapes
func bytesAround(n int, c [4]byte) {
	var b [12]byte
	b[0], b[1], b[2] = '"', '\\', 'n'
	for i := 0; i < n; i++ {
		b[3+i] = c[i]
	}
	b[3+n], b[4+n], b[5+n] = '\\', 't', '"'
	v, err := jsonvalue.UnmarshalNoCopy(b[:6+n])
	Assert("a character between escapes is accepted", err == nil)
	if err == nil {
		s := v.String()
		Assert("the length is kept", len(s) == n+2)
		Assert("the escapes around are decoded", s[0] == '\n' && s[1+n] == '\t')
		for i := 0; i < n; i++ {
			Assert("the character is kept", s[1+i] == c[i])
		}
	}
}

func cont(c byte) bool { return c >= 0x80 && c < 0xC0 }

func SpecC03Between1() {
	x := AnyUint8("x")
	Assume(x < 0x80 && x != '"' && x != '\\')
	bytesAround(1, [4]byte{x, 0, 0, 0})
}

func SpecC03Between2() {
	c0, c1 := AnyUint8("c0"), AnyUint8("c1")
	Assume(size(c0) == 2 && cont(c1))
	bytesAround(2, [4]byte{c0, c1, 0, 0})
}

func SpecC03Between3() {
	c0, c1, c2 := AnyUint8("c0"), AnyUint8("c1"), AnyUint8("c2")
	Assume(size(c0) == 3 && cont(c1) && cont(c2))
	bytesAround(3, [4]byte{c0, c1, c2, 0})
}

func SpecC03Between4() {
	c0, c1, c2, c3 := AnyUint8("c0"), AnyUint8("c1"), AnyUint8("c2"), AnyUint8("c3")
	Assume(size(c0) == 4 && cont(c1) && cont(c2) && cont(c3))
	bytesAround(4, [4]byte{c0, c1, c2, c3})
}

// SpecC03AfterUnicode: characters after a four digit escape, which takes less room decoded
func SpecC03AfterUnicode() {
	c0, c1, c2 := AnyUint8("c0"), AnyUint8("c1"), AnyUint8("c2")
	Assume(size(c0) == 3 && cont(c1) && cont(c2))
	b := [12]byte{'"', '\\', 'u', '0', '0', 'E', '9', c0, c1, c2, 'z', '"'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("accepted", err == nil)
	if err == nil {
		s := v.String()
		Assert("what follows an escape is kept", len(s) == 6 && s[0] == 0xC3 && s[1] == 0xA9 && s[2] == c0 && s[3] == c1 && s[4] == c2 && s[5] == 'z')
	}
}

// SpecC03Key: an escape in a key
func SpecC03Key() {
	x := AnyUint8("x")
	Assume(x >= '0' && x <= '9')
	b := [12]byte{'{', '"', '\\', 'u', '0', '0', '4', x, '"', ':', '1', '}'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("accepted", err == nil)
	if err == nil {
		want := [1]byte{0x40 + x - '0'}
		Assert("the key is decoded", Kind(v) == jsonvalue.Object && Count(v) == 1 && Has(v, string(want[:])))
	}
}

// SpecC03KeyPair: a pair of surrogates in a key
func SpecC03KeyPair() {
	b := [18]byte{'{', '"', '\\', 'u', 'd', '8', '3', 'D', '\\', 'u', 'D', 'E', '0', '0', '"', ':', '1', '}'}
	v, err := jsonvalue.UnmarshalNoCopy(b[:])
	Assert("accepted", err == nil)
	if err == nil {
		Assert("the key is decoded", Kind(v) == jsonvalue.Object && Count(v) == 1 && Has(v, "\U0001F600"))
	}
}
