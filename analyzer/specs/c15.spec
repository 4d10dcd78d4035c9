package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// SpecC15Range: members are iterated in the order of their sequence numbers
func SpecC15Range() {
	NoPanic()
	v := object("v")
	p, q := AnyString("p"), AnyString("q")
	Assume(Has(v, p) && Has(v, q) && Seq(v, p) < Seq(v, q) && p != q)
	WatchOrder(v, p, q)
	seen := false
	v.RangeObjectsBySetSequence(func(k string, m *jsonvalue.V) bool {
		if k == p {
			seen = true
		}
		if k == q {
			Assert("a key set earlier is visited earlier", seen)
		}
		return AnyBool("go on")
	})
}

func inOrder(o jsonvalue.Opt) {
	NoPanic()
	EscapingIsAFunction()
	v := object("v")
	p, q := AnyString("p"), AnyString("q")
	Assume(Has(v, p) && Has(v, q) && Seq(v, p) < Seq(v, q) && p != q)
	if o.OmitNull {
		WatchKey(p, Kind(Member(v, p)) == jsonvalue.Null)
		Assume(Kind(Member(v, p)) != jsonvalue.Null)
	}
	WatchOrder(v, p, q)
	seen := false
	Output(func(c byte) {}, func(s string) {
		if s == p {
			seen = true
		}
		if s == q {
			Assert("a key set earlier is written earlier", seen)
		}
	}, func(s string) {}, func(m *jsonvalue.V, err error) {})
	v.Marshal(o, jsonvalue.OptSetSequence())
}

func SpecC15Marshal()     { inOrder(withOmit(opt(), false)) }
func SpecC15MarshalOmit() { inOrder(withOmit(opt(), true)) }

// numbered: no sequence number exceeds the counter, and they differ
func numbered(v *jsonvalue.V, k, q string) {
	Assume(!Has(v, k) || Seq(v, k) <= Counter(v))
	Assume(!Has(v, q) || Seq(v, q) <= Counter(v))
	Assume(k == q || !Has(v, k) || !Has(v, q) || Seq(v, k) != Seq(v, q))
	Assume(Counter(v) < 4294967295)
}

type memo struct {
	has     bool
	seq, ct uint32
	m       *jsonvalue.V
}

func remember(v *jsonvalue.V, q string) *memo {
	return &memo{has: Has(v, q), seq: Seq(v, q), ct: Counter(v), m: Member(v, q)}
}

// last: k is the last key of v, and nothing changed about the other keys
func last(v *jsonvalue.V, k, q string, was *memo) {
	Assert("a key which was set is there", Has(v, k))
	Assert("a key's sequence number is covered by the counter", Seq(v, k) <= Counter(v))
	if q != k {
		Assert("other keys stay", Has(v, q) == was.has)
		if was.has {
			Assert("other keys keep their place", Seq(v, q) == was.seq && Member(v, q) == was.m)
			Assert("a key which was set comes last", Seq(v, k) > Seq(v, q))
			Assert("sequence numbers stay covered by the counter", Seq(v, q) <= Counter(v))
		}
	}
}

// kept: nothing changed about q
func kept(v *jsonvalue.V, q string, was *memo) {
	Assert("keys stay which are not set", Has(v, q) == was.has)
	if was.has {
		Assert("keys which are not set keep their place", Seq(v, q) == was.seq && Member(v, q) == was.m)
		Assert("the counter covers the keys", Seq(v, q) <= Counter(v))
	}
}

func SpecC15Set() {
	v, c := object("v"), AnyV("c")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	_, err := v.Set(c).At(k)
	Assert("setting a member of an object succeeds", err == nil)
	last(v, k, q, was)
	Assert("a key which was set has the new value", Member(v, k) == c)
}

func SpecC15SetString() {
	v := object("v")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	_, err := v.SetString(AnyString("s")).At(k)
	Assert("setting a text succeeds", err == nil)
	last(v, k, q, was)
}

func SpecC15MustSet() {
	v, c := object("v"), AnyV("c")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	v.MustSet(c).At(k)
	last(v, k, q, was)
}

func SpecC15SetBelow() {
	v, c := object("v"), AnyV("c")
	p, k, q := AnyString("p"), AnyString("k"), AnyString("q")
	Assume(Has(v, p))
	m := Member(v, p)
	Assume(Kind(m) == jsonvalue.Object && m != v)
	numbered(m, k, q)
	was := remember(m, q)
	_, err := v.Set(c).At(p, k)
	Assert("setting a member of a member succeeds", err == nil)
	last(m, k, q, was)
}

func SpecC15SetBelowNew() {
	v, c := object("v"), AnyV("c")
	p, k, q := AnyString("p"), AnyString("k"), AnyString("q")
	Assume(!Has(v, p))
	numbered(v, p, q)
	was := remember(v, q)
	_, err := v.Set(c).At(p, k)
	Assert("setting a member of a new member succeeds", err == nil)
	last(v, p, q, was)
	if err == nil {
		Assert("the new member has the key", Has(Member(v, p), k) && Member(Member(v, p), k) == c)
		Assert("the new member is numbered", Seq(Member(v, p), k) <= Counter(Member(v, p)))
	}
}

func SpecC15SetElement() {
	v, c := array("v"), AnyV("c")
	i, k, q := AnyInt("i"), AnyString("k"), AnyString("q")
	Assume(0 <= i && i < Len(v))
	m := Elem(v, i)
	Assume(Kind(m) == jsonvalue.Object && m != v)
	numbered(m, k, q)
	was := remember(m, q)
	_, err := v.Set(c).At(i, k)
	Assert("setting a member of an element succeeds", err == nil)
	last(m, k, q, was)
}

func SpecC15AppendNew() {
	v, c := object("v"), AnyV("c")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	had := Has(v, k)
	_, err := v.Append(c).InTheEnd(k)
	if err == nil && !had {
		last(v, k, q, was)
	} else {
		kept(v, q, was)
	}
}

func SpecC15Delete() {
	v := object("v")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	err := v.Delete(k)
	if err == nil {
		Assert("a deleted key is gone", !Has(v, k))
	}
	if q != k {
		kept(v, q, was)
	}
}

// SpecC15Again: a key which is deleted and set again comes last
func SpecC15Again() {
	v, c := object("v"), AnyV("c")
	k, q := AnyString("k"), AnyString("q")
	numbered(v, k, q)
	was := remember(v, q)
	v.Delete(k)
	_, err := v.Set(c).At(k)
	Assert("setting a deleted key succeeds", err == nil)
	last(v, k, q, was)
}

// SpecC15Twice: of two keys which are set, the one set last comes last
func SpecC15Twice() {
	v := jsonvalue.NewObject()
	k, q := AnyString("k"), AnyString("q")
	Assume(k != q)
	v.SetInt(1).At(k)
	v.SetInt(2).At(q)
	Assert("keys of a new object have the order in which they were set", Has(v, k) && Has(v, q) && Seq(v, k) < Seq(v, q))
	v.SetInt(3).At(k)
	Assert("a key which is set again comes last", Has(v, k) && Has(v, q) && Seq(v, q) < Seq(v, k))
}

// letter is a key of one plain character
func letter(name string) string {
	c := AnyUint8(name)
	Assume(' ' <= c && c < 127 && c != '"' && c != '\\')
	return string([]byte{c})
}

func parsed(first, second, third string) {
	a, b, c := letter("a"), letter("b"), letter("c")
	text := "{\"" + a + "\":" + first + ",\"" + b + "\":" + second + ",\"" + c + "\":" + third + "}"
	v, err := jsonvalue.UnmarshalString(text)
	Assert("the text is parsed", err == nil)
	if err != nil {
		return
	}
	Assert("parsed keys are there", Has(v, a) && Has(v, b) && Has(v, c))
	Assert("the counter covers the parsed keys", Seq(v, a) <= Counter(v) && Seq(v, b) <= Counter(v) && Seq(v, c) <= Counter(v))
	if b != c {
		Assert("parsed keys have the order of the text", Seq(v, b) < Seq(v, c))
	}
	if a != c && a != b {
		Assert("the first key comes first", Seq(v, a) < Seq(v, b) && Seq(v, a) < Seq(v, c))
	}
	if a == b && b != c {
		Assert("a repeated key takes its last place", Seq(v, a) < Seq(v, c))
	}
	if a == c && b != c {
		Assert("a key which is repeated at the end comes last", Seq(v, b) < Seq(v, a))
	}
}

func SpecC15ParseString()  { parsed("\"s\"", "\"t\"", "\"u\"") }
func SpecC15ParseNumber()  { parsed("1", "2", "3") }
func SpecC15ParseBool()    { parsed("true", "false", "true") }
func SpecC15ParseNull()    { parsed("null", "false", "null") }
func SpecC15ParseObject()  { parsed("{}", "{\"x\":1}", "{}") }
func SpecC15ParseArray()   { parsed("[]", "[1]", "[]") }
func SpecC15ParseMixed()   { parsed("[]", "1", "{}") }
func SpecC15ParseMixed2()  { parsed("\"s\"", "null", "true") }
func SpecC15ParseMixed3()  { parsed("false", "{}", "\"s\"") }

// SpecC15Copy: copies have the sequence numbers of their originals
func SpecC15Copy() {
	Recursion(func(m *jsonvalue.V) *jsonvalue.V { return AnyV("copy") })
	v := object("v")
	q := AnyString("q")
	w, err := jsonvalue.Import(v)
	Assert("a value can be imported", err == nil)
	Assert("a copy has the keys of the original", Kind(w) == jsonvalue.Object && Has(w, q) == Has(v, q))
	if Has(v, q) {
		Assert("a copy has the order of the original", Seq(w, q) == Seq(v, q))
	}
	Assert("a copy continues the order", Counter(w) == Counter(v))
}
