package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func objectText(id string, o jsonvalue.Opt, order jsonvalue.Option, indent bool) {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	q := AnyString("q")
	Assume(Has(v, q) && Count(v) > 0)
	null := Kind(Member(v, q)) == jsonvalue.Null
	omitted := o.OmitNull && null
	seen := false
	WatchKey(q, null)
	t := &text{}
	observe(v, t, q, &seen, o.OmitNull)
	var b []byte
	var err error
	if indent {
		prefix, step := AnyString("prefix"), AnyString("step")
		Blank(prefix)
		Blank(step)
		b, err = v.Marshal(o, order, jsonvalue.OptIndent(prefix, step))
	} else {
		b, err = v.Marshal(o, order)
	}
	if err == nil {
		Assert("a successful marshal has written everything", !t.failed)
		Assert("the object is complete", t.end)
		Assert("every member is written, unless it is omitted", seen == !omitted)
		Assert("what was written is the result", string(b) == Written())
	} else {
		Assert("marshaling only fails if a member cannot be marshaled", t.failed)
		Assert("nothing is returned with an error", len(b) == 0)
	}
}

func SpecC05ObjectLess()     { objectText("less", withOmit(opt(), false), less(), false) }
func SpecC05ObjectLessOmit() { objectText("less", withOmit(opt(), true), less(), false) }
func SpecC05ObjectPlain()     { objectText("plain", withOmit(plain(), false), jsonvalue.OptEscapeSlash(true), false) }
func SpecC05ObjectPlainOmit() { objectText("plain", withOmit(plain(), true), jsonvalue.OptEscapeSlash(true), false) }
func SpecC05ObjectSeq()     { objectText("seq", withOmit(opt(), false), seq(), false) }
func SpecC05ObjectSeqOmit() { objectText("seq", withOmit(opt(), true), seq(), false) }
func SpecC05ObjectSetSeq()     { objectText("set", withOmit(opt(), false), jsonvalue.OptSetSequence(), false) }
func SpecC05ObjectSetSeqOmit() { objectText("set", withOmit(opt(), true), jsonvalue.OptSetSequence(), false) }
func SpecC05ObjectIndent()       { objectText("plain", withOmit(plain(), false), jsonvalue.OptEscapeSlash(true), true) }
func SpecC05ObjectIndentOmit()   { objectText("plain", withOmit(plain(), true), jsonvalue.OptEscapeSlash(true), true) }
func SpecC05ObjectIndentLess()   { objectText("less", withOmit(opt(), false), less(), true) }
func SpecC05ObjectIndentSeq()    { objectText("seq", withOmit(opt(), true), seq(), true) }
func SpecC05ObjectIndentSetSeq() { objectText("set", withOmit(opt(), true), jsonvalue.OptSetSequence(), true) }

func arrayText(o jsonvalue.Opt, indent bool) {
	NoPanic()
	EscapingIsAFunction()
	v := array("v")
	Assume(Len(v) > 0)
	t := &text{}
	n := 0
	t.start = true
	Output(func(c byte) {
		switch {
		case t.start:
			if !t.blank(c) {
				Assert("an array starts with a bracket", c == '[')
				t.start, t.first = false, true
			}
		case t.first:
			if !t.blank(c) {
				Assert("a bracket is followed by an element or the closing bracket", c == ']')
				t.first, t.end = false, true
			}
		case t.comma:
			Assert("a comma is followed by an element", t.blank(c))
		case t.member:
			if c == ',' {
				t.member, t.comma = false, true
			} else if !t.blank(c) {
				Assert("an element is followed by a comma or the closing bracket", c == ']')
				t.member, t.end = false, true
			}
		default:
			Assert("nothing follows the closing bracket", t.blank(c))
		}
	}, func(s string) {
		Unreachable("no text is written")
	}, func(s string) {
		Unreachable("no other text is written")
	}, func(m *jsonvalue.V, err error) {
		Assert("an element follows the bracket or a comma", t.first || t.comma)
		Assert("the elements are written in their order", n < Len(v) && Elem(v, n) == m)
		n++
		t.first, t.comma, t.member = false, false, true
		if err != nil {
			t.failed = true
		}
	})
	var b []byte
	var err error
	if indent {
		prefix, step := AnyString("prefix"), AnyString("step")
		Blank(prefix)
		Blank(step)
		b, err = v.Marshal(o, jsonvalue.OptIndent(prefix, step))
	} else {
		b, err = v.Marshal(o)
	}
	if err == nil {
		Assert("a successful marshal has written all elements", !t.failed)
		Assert("the array is complete", t.end)
		Assert("every element is written", n == Len(v))
		Assert("what was written is the result", string(b) == Written())
	} else {
		Assert("marshaling an array only fails if an element cannot be marshaled", t.failed)
		Assert("nothing is returned with an error", len(b) == 0)
	}
}

func SpecC05Array()       { arrayText(opt(), false) }
func SpecC05ArrayIndent() { arrayText(opt(), true) }

func SpecC05Empty() {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	Assume(Count(v) == 0)
	s, err := v.MarshalString(opt())
	Assert("an empty object is written as such", err == nil && s == "{}")
	w := array("w")
	Assume(Len(w) == 0)
	s, err = w.MarshalString(opt())
	Assert("an empty array is written as such", err == nil && s == "[]")
}

func SpecC05EmptyIndent() {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	Assume(Count(v) == 0)
	s, err := v.MarshalString(opt(), jsonvalue.OptIndent(AnyString("prefix"), AnyString("step")))
	Assert("an empty object is written as such", err == nil && s == "{}")
	w := array("w")
	Assume(Len(w) == 0)
	s, err = w.MarshalString(opt(), jsonvalue.OptIndent(AnyString("prefix"), AnyString("step")))
	Assert("an empty array is written as such", err == nil && s == "[]")
}

func scalarText(indent bool) {
	NoPanic()
	EscapingIsAFunction()
	v := AnyV("v")
	Assume(Kind(v) != jsonvalue.Object && Kind(v) != jsonvalue.Array)
	var s string
	var err error
	if indent {
		s, err = v.MarshalString(opt(), jsonvalue.OptIndent(AnyString("prefix"), AnyString("step")))
	} else {
		s, err = v.MarshalString(opt())
	}
	switch Kind(v) {
	case jsonvalue.String:
		Assert("a string is written in escaped form between quotes", err == nil && s == "\""+Escaped(v.String())+"\"")
	case jsonvalue.Boolean:
		if v.Bool() {
			Assert("true is written as such", err == nil && s == "true")
		} else {
			Assert("false is written as such", err == nil && s == "false")
		}
	case jsonvalue.Null:
		Assert("null is written as such", err == nil && s == "null")
	case jsonvalue.Number:
		if HasText(v) {
			Assert("a number is written with its text", err == nil && s == v.String())
		}
	}
}

func SpecC05Scalar()       { scalarText(false) }
func SpecC05ScalarIndent() { scalarText(true) }

func SpecC05Missing() {
	NoPanic()
	EscapingIsAFunction()
	v := AnyRawV("v")
	Assume(v != nil)
	k := Kind(v)
	Assume(k != jsonvalue.String && k != jsonvalue.Boolean && k != jsonvalue.Null && k != jsonvalue.Number && k != jsonvalue.Object && k != jsonvalue.Array)
	s, err := v.MarshalString(opt())
	Assert("what is no value cannot be marshaled", err != nil && s == "")
	b, err := v.Marshal(opt())
	Assert("what is no value cannot be marshaled to bytes", err != nil && len(b) == 0)
}

func SpecC05Must() {
	NoPanic()
	EscapingIsAFunction()
	v := AnyRawV("v")
	Assume(v != nil)
	k := Kind(v)
	Assume(k != jsonvalue.Object && k != jsonvalue.Array && (k != jsonvalue.Number || HasText(v)))
	o := opt()
	s, err := v.MarshalString(o)
	b, errb := v.Marshal(o)
	Assert("bytes and text agree", (err == nil) == (errb == nil) && string(b) == s)
	Assert("MustMarshalString gives the same text, or none", v.MustMarshalString(o) == s)
	Assert("MustMarshal gives the same text, or none", string(v.MustMarshal(o)) == s)
}

