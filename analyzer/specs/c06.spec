package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// marshaled is v's text, under one combination of the escaping options
func marshaled(v *jsonvalue.V, raw, html, slash bool) string {
	xs := []jsonvalue.Option{jsonvalue.OptEscapeHTML(html), jsonvalue.OptEscapeSlash(slash)}
	if raw {
		xs = append(xs, jsonvalue.OptUTF8())
	}
	s, err := v.MarshalString(xs...)
	Assert("a text can be marshaled", err == nil)
	return s
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c) - '0'
	case c >= 'a' && c <= 'f':
		return int(c) - 'a' + 10
	case c >= 'A' && c <= 'F':
		return int(c) - 'A' + 10
	}
	Assert("a hexadecimal digit is one", false)
	return 0
}

// unit reads \uXXXX
func unit(s string) int {
	Assert("an escape has six characters", len(s) >= 6 && s[0] == '\\' && s[1] == 'u')
	return hexVal(s[2])*4096 + hexVal(s[3])*256 + hexVal(s[4])*16 + hexVal(s[5])
}

// middle cuts the given text off both ends
func middle(s, before, after string) string {
	n := len(s) - len(after)
	Assert("the text is quoted and unchanged around the character", len(s) > len(before)+len(after) && s[:len(before)] == before && s[n:] == after)
	return s[len(before):n]
}

// checkASCII decodes what stands for a character below 0x80
func checkASCII(m string, x byte) {
	if len(m) == 1 {
		Assert("a plain character is itself", m[0] == x)
		Assert("controls, quotes and backslashes are escaped", x >= 0x20 && x != '"' && x != '\\')
		return
	}
	Assert("an escape starts with a backslash", len(m) >= 2 && m[0] == '\\')
	if len(m) == 2 {
		switch m[1] {
		case '"', '\\', '/':
			Assert("an escaped character is itself", m[1] == x)
		case 'b':
			Assert("an escaped character is a backspace", x == '\b')
		case 'f':
			Assert("an escaped character is a form feed", x == '\f')
		case 'n':
			Assert("an escaped character is a line feed", x == '\n')
		case 'r':
			Assert("an escaped character is a return", x == '\r')
		case 't':
			Assert("an escaped character is a tab", x == '\t')
		default:
			Assert("an escaped character can be escaped", false)
		}
		return
	}
	Assert("an escape has six characters", len(m) == 6)
	Assert("an escape gives the character's code", unit(m) == int(x))
}

// quoted marshals a text, as a value or as the key of an object, and takes off what is around the literal
func quoted(text string, asKey, raw, html, slash bool) string {
	for range text { // one case for each length of the character in it
	}
	if !asKey {
		return marshaled(jsonvalue.NewString(text), raw, html, slash)
	}
	o := jsonvalue.NewObject()
	o.MustSet(true).At(text)
	return middle(marshaled(o, raw, html, slash), "{", ":true}")
}

func ascii(asKey, raw, html, slash bool) {
	NoPanic()
	x := byte(nibble("x1", 7)<<4 | nibble("x0", 15))
	b := [3]byte{'a', x, 'b'}
	s := quoted(string(b[:]), asKey, raw, html, slash)
	checkASCII(middle(s, "\"a", "b\""), x)
}

// checkRune decodes what stands for a character beyond 0x7F
func checkRune(m string, r rune, hi, lo int, raw bool) {
	if len(m) > 0 && m[0] != '\\' {
		Assert("a character is written raw only if asked for", raw)
		Assert("a raw character is itself", m == string(r))
		return
	}
	if r <= 0xFFFF {
		Assert("an escape has six characters", len(m) == 6)
		Assert("an escape gives the character's code", unit(m) == int(r))
		return
	}
	Assert("a pair of escapes has twelve characters", len(m) == 12)
	Assert("the first escape is the high surrogate", unit(m[:6]) == hi)
	Assert("the second escape is the low surrogate", unit(m[6:]) == lo)
}

func nibble(name string, max uint8) int {
	x := AnyUint8(name)
	Assume(x <= max)
	return int(x)
}

// plane marshals an arbitrary character of the basic plane, beyond 0x7F
func plane(asKey, raw, html, slash bool) {
	NoPanic()
	n := nibble("n3", 15)<<12 | nibble("n2", 15)<<8 | nibble("n1", 15)<<4 | nibble("n0", 15)
	Assume(n >= 0x80)
	r := rune(n)
	Assume(r < 0xD800 || r > 0xDFFF)
	s := quoted("a"+string(r)+"b", asKey, raw, html, slash)
	checkRune(middle(s, "\"a", "b\""), r, 0, 0, raw)
}

// beyond marshals an arbitrary character beyond the basic plane
func beyond(asKey, raw, html, slash bool) {
	NoPanic()
	hi := nibble("hi2", 3)<<8 | nibble("hi1", 15)<<4 | nibble("hi0", 15)
	lo := nibble("lo2", 3)<<8 | nibble("lo1", 15)<<4 | nibble("lo0", 15)
	r := rune(0x10000 + (hi<<10 | lo))
	s := quoted("a"+string(r)+"b", asKey, raw, html, slash)
	checkRune(middle(s, "\"a", "b\""), r, 0xD800+hi, 0xDC00+lo, raw)
}

func SpecC06ASCIIValue() { ascii(false, false, false, false) }
func SpecC06PlaneValue() { plane(false, false, false, false) }
func SpecC06BeyondValue() { beyond(false, false, false, false) }

func SpecC06ASCIIValueSlash() { ascii(false, false, false, true) }
func SpecC06PlaneValueSlash() { plane(false, false, false, true) }
func SpecC06BeyondValueSlash() { beyond(false, false, false, true) }

func SpecC06ASCIIValueHTML() { ascii(false, false, true, false) }
func SpecC06PlaneValueHTML() { plane(false, false, true, false) }
func SpecC06BeyondValueHTML() { beyond(false, false, true, false) }

func SpecC06ASCIIValueHTMLSlash() { ascii(false, false, true, true) }
func SpecC06PlaneValueHTMLSlash() { plane(false, false, true, true) }
func SpecC06BeyondValueHTMLSlash() { beyond(false, false, true, true) }

func SpecC06ASCIIValueRaw() { ascii(false, true, false, false) }
func SpecC06PlaneValueRaw() { plane(false, true, false, false) }
func SpecC06BeyondValueRaw() { beyond(false, true, false, false) }

func SpecC06ASCIIValueRawSlash() { ascii(false, true, false, true) }
func SpecC06PlaneValueRawSlash() { plane(false, true, false, true) }
func SpecC06BeyondValueRawSlash() { beyond(false, true, false, true) }

func SpecC06ASCIIValueRawHTML() { ascii(false, true, true, false) }
func SpecC06PlaneValueRawHTML() { plane(false, true, true, false) }
func SpecC06BeyondValueRawHTML() { beyond(false, true, true, false) }

func SpecC06ASCIIValueRawHTMLSlash() { ascii(false, true, true, true) }
func SpecC06PlaneValueRawHTMLSlash() { plane(false, true, true, true) }
func SpecC06BeyondValueRawHTMLSlash() { beyond(false, true, true, true) }

func SpecC06ASCIIKey() { ascii(true, false, false, false) }
func SpecC06PlaneKey() { plane(true, false, false, false) }
func SpecC06BeyondKey() { beyond(true, false, false, false) }

func SpecC06ASCIIKeySlash() { ascii(true, false, false, true) }
func SpecC06PlaneKeySlash() { plane(true, false, false, true) }
func SpecC06BeyondKeySlash() { beyond(true, false, false, true) }

func SpecC06ASCIIKeyHTML() { ascii(true, false, true, false) }
func SpecC06PlaneKeyHTML() { plane(true, false, true, false) }
func SpecC06BeyondKeyHTML() { beyond(true, false, true, false) }

func SpecC06ASCIIKeyHTMLSlash() { ascii(true, false, true, true) }
func SpecC06PlaneKeyHTMLSlash() { plane(true, false, true, true) }
func SpecC06BeyondKeyHTMLSlash() { beyond(true, false, true, true) }

func SpecC06ASCIIKeyRaw() { ascii(true, true, false, false) }
func SpecC06PlaneKeyRaw() { plane(true, true, false, false) }
func SpecC06BeyondKeyRaw() { beyond(true, true, false, false) }

func SpecC06ASCIIKeyRawSlash() { ascii(true, true, false, true) }
func SpecC06PlaneKeyRawSlash() { plane(true, true, false, true) }
func SpecC06BeyondKeyRawSlash() { beyond(true, true, false, true) }

func SpecC06ASCIIKeyRawHTML() { ascii(true, true, true, false) }
func SpecC06PlaneKeyRawHTML() { plane(true, true, true, false) }
func SpecC06BeyondKeyRawHTML() { beyond(true, true, true, false) }

func SpecC06ASCIIKeyRawHTMLSlash() { ascii(true, true, true, true) }
func SpecC06PlaneKeyRawHTMLSlash() { plane(true, true, true, true) }
func SpecC06BeyondKeyRawHTMLSlash() { beyond(true, true, true, true) }
