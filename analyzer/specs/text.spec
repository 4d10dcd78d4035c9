package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// text follows the output of one container: exactly one phase is on
type text struct {
	start, first, comma, quote, key, unquote, colon, member, end bool

	name   string
	failed bool
}

func (t *text) blank(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func object(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Object)
	return v
}

func array(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Array)
	return v
}

// observe checks what is written for object v; q is an arbitrary key, omitted tells whether it is left out
func observe(v *jsonvalue.V, t *text, q string, seen *bool, omit bool) {
	t.start = true
	Output(func(c byte) {
		switch {
		case t.start:
			if !t.blank(c) {
				Assert("an object starts with a brace", c == '{')
				t.start, t.first = false, true
			}
		case t.first:
			if c == '"' {
				t.first, t.quote = false, true
				t.name = ""
			} else if !t.blank(c) {
				Assert("a brace is followed by a key or the closing brace", c == '}')
				t.first, t.end = false, true
			}
		case t.comma:
			if !t.blank(c) {
				Assert("a comma is followed by a key", c == '"')
				t.comma, t.quote = false, true
				t.name = ""
			}
		case t.quote, t.key:
			Assert("a key ends with a quote", c == '"')
			t.quote, t.key, t.unquote = false, false, true
		case t.unquote:
			if !t.blank(c) {
				Assert("a key is followed by a colon", c == ':')
				t.unquote, t.colon = false, true
			}
		case t.colon:
			Assert("a colon is followed by a value", t.blank(c))
		case t.member:
			if c == ',' {
				t.member, t.comma = false, true
			} else if !t.blank(c) {
				Assert("a member is followed by a comma or the closing brace", c == '}')
				t.member, t.end = false, true
			}
		default:
			Assert("nothing follows the closing brace", t.blank(c))
		}
	}, func(s string) {
		Assert("a key is written between quotes", t.quote)
		t.quote, t.key = false, true
		t.name = s
	}, func(s string) {
		Unreachable("no other text is written")
	}, func(m *jsonvalue.V, err error) {
		Assert("a value follows a colon", t.colon)
		Assert("a key is followed by its own member", Has(v, t.name) && Member(v, t.name) == m)
		Assert("an omitted member is not written", !omit || Kind(m) != jsonvalue.Null)
		if t.name == q {
			Assert("a member is written once", !*seen)
			*seen = true
		}
		t.colon, t.member = false, true
		if err != nil {
			t.failed = true
		}
	})
}

func withOmit(p jsonvalue.Opt, omit bool) jsonvalue.Opt {
	p.OmitNull = omit
	return p
}

func less() jsonvalue.Option { return jsonvalue.OptKeySequenceWithLessFunc(someLess()) }

func seq() jsonvalue.Option {
	ks := AnyStrings("ks")
	Assume(len(ks) > 0)
	return jsonvalue.OptKeySequence(ks)
}

func someLess() jsonvalue.MarshalLessFunc {
	f := AnyLess("f")
	Assume(f != nil)
	return f
}

// plain has no order of keys
func plain() jsonvalue.Opt {
	p := opt()
	p.MarshalLessFunc = nil
	p.MarshalKeySequence = nil
	return p
}

func opt() jsonvalue.Opt {
	return jsonvalue.Opt{
		OmitNull:                 AnyBool("omit"),
		MarshalLessFunc:          AnyLess("less"),
		MarshalKeySequence:       AnyStrings("seq"),
		FloatNaNHandleType:       jsonvalue.FloatNaNHandleType(AnyUint8("nanh")),
		FloatNaNToString:         AnyString("nans"),
		FloatNaNToFloat:          AnyFloat64("nanf"),
		FloatInfHandleType:       jsonvalue.FloatInfHandleType(AnyUint8("infh")),
		FloatInfPositiveToString: AnyString("infs"),
		FloatInfNegativeToString: AnyString("infns"),
		FloatInfToFloat:          AnyFloat64("inff"),
	}
}
