package spec

import (
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func SpecC14SetThenGet() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, q := AnyString("a"), AnyString("q")
	if AnyBool("index") {
		o.Caseless().Get("x")
	}
	o.MustSetInt(1).At(a)
	m, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (strings.ToLower(a) == strings.ToLower(q)))
	if err == nil {
		Assert("current value", m == Member(o, a))
	}
}

func SpecC14TwoKeys() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, q := AnyString("a"), AnyString("b"), AnyString("q")
	o.MustSetInt(1).At(a)
	if AnyBool("index") {
		o.Caseless().Get("x")
	}
	o.MustSetInt(2).At(b)
	m, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (strings.ToLower(a) == strings.ToLower(q) || strings.ToLower(b) == strings.ToLower(q)))
	if err == nil {
		if Has(o, q) {
			Assert("exact", m == Member(o, q))
		} else {
			Assert("one of the members", m == Member(o, a) || m == Member(o, b))
		}
	}
}

func SpecC14Delete() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, d, q := AnyString("a"), AnyString("b"), AnyString("d"), AnyString("q")
	o.MustSetInt(1).At(a)
	o.MustSetInt(2).At(b)
	if AnyBool("index") {
		o.Caseless().Get("x")
	}
	derr := o.Delete(d)
	Assert("deletes only that spelling", (derr == nil) == (d == a || d == b))
	ia, ib := a != d, b != d
	_, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (ia && strings.ToLower(a) == strings.ToLower(q) || ib && strings.ToLower(b) == strings.ToLower(q)))
}

func SpecC14CaselessDelete() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, d, q := AnyString("a"), AnyString("b"), AnyString("d"), AnyString("q")
	Assume(a != b)
	o.MustSetInt(1).At(a)
	o.MustSetInt(2).At(b)
	derr := o.Caseless().Delete(d)
	ma, mb := strings.ToLower(a) == strings.ToLower(d), strings.ToLower(b) == strings.ToLower(d)
	Assert("deletes exactly if one matches", (derr == nil) == (ma || mb))
	if derr == nil {
		Assert("one is gone", Has(o, a) != Has(o, b))
		if d == a {
			Assert("the exact one", Has(o, b))
		}
		if Has(o, a) {
			Assert("b matched", mb)
		} else {
			Assert("a matched", ma)
		}
	}
	_, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (Has(o, a) && strings.ToLower(a) == strings.ToLower(q) || Has(o, b) && strings.ToLower(b) == strings.ToLower(q)))
}

// step14 performs one operation, of any kind, with the key k.
func step14(o *jsonvalue.V, name, k string) {
	switch AnyInt(name) {
	case 0:
		o.MustSetInt(7).At(k)
	case 1:
		o.MustDelete(k)
	case 2:
		o.Caseless().MustDelete(k)
	default:
		o.Caseless().MustGet(k)
	}
}

// like14 tells whether the object has the key k, and it is q regardless of case.
func like14(o *jsonvalue.V, k, q string) bool {
	return Has(o, k) && strings.ToLower(k) == strings.ToLower(q)
}

func SpecC14History3() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, d, q := AnyString("a"), AnyString("b"), AnyString("d"), AnyString("q")
	o.MustSetInt(1).At(a)
	step14(o, "second", b)
	step14(o, "third", d)
	m, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (like14(o, a, q) || like14(o, b, q) || like14(o, d, q)))
	if err == nil {
		if Has(o, q) {
			Assert("exact", m == Member(o, q))
		} else if m == Member(o, a) {
			Assert("a matches", like14(o, a, q))
		} else if m == Member(o, b) {
			Assert("b matches", like14(o, b, q))
		} else {
			Assert("d matches", m == Member(o, d) && like14(o, d, q))
		}
	}
}

func SpecC14Exact() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, q := AnyString("a"), AnyString("b"), AnyString("q")
	o.MustSetInt(1).At(a)
	step14(o, "second", b)
	m, err := o.Get(q)
	Assert("only the very key", (err == nil) == Has(o, q))
	if err == nil {
		Assert("its value", m == Member(o, q))
	}
	had, n := Has(o, q), Count(o)
	hadA, hadB := Has(o, a), Has(o, b)
	derr := o.Delete(q)
	Assert("deleted exactly if present", (derr == nil) == had)
	Assert("gone", !Has(o, q))
	if had {
		Assert("one less", Count(o) == n-1)
	} else {
		Assert("as many", Count(o) == n)
	}
	if a != q {
		Assert("a stays", Has(o, a) == hadA)
	}
	if b != q {
		Assert("b stays", Has(o, b) == hadB)
	}
}

func SpecC14DeleteOne() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, d := AnyString("a"), AnyString("b"), AnyString("d")
	o.MustSetInt(1).At(a)
	step14(o, "second", b)
	likeA, likeB, had, n := like14(o, a, d), like14(o, b, d), Has(o, d), Count(o)
	hadA, hadB := Has(o, a), Has(o, b)
	err := o.Caseless().Delete(d)
	Assert("deleted exactly if a key matches", (err == nil) == (likeA || likeB))
	if err == nil {
		Assert("one less", Count(o) == n-1)
		Assert("the exact one if there is one", !had || !Has(o, d))
	} else {
		Assert("as many", Count(o) == n)
	}
	if !likeA {
		Assert("another spelling of nothing stays (a)", Has(o, a) == hadA)
	}
	if !likeB {
		Assert("another spelling of nothing stays (b)", Has(o, b) == hadB)
	}
	if had && a != d {
		Assert("a stays if the exact key was there", Has(o, a) == hadA)
	}
	if had && b != d {
		Assert("b stays if the exact key was there", Has(o, b) == hadB)
	}
}

// deeper: within a member, and by the other ways of putting a member into an object

func SpecC14Deep() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, q := AnyString("a"), AnyString("b"), AnyString("q")
	o.MustSetInt(1).At("in", a)
	x := Member(o, "in")
	step14(x, "second", b)
	var err error
	switch AnyInt("operation") {
	case 0:
		_, err = o.Caseless().Get("IN", q)
	case 1:
		_, err = o.Caseless().Get([]interface{}{"In", q})
	default:
		_, err = o.Caseless().GetInt("iN", q)
	}
	Assert("found exactly if a key matches", (err == nil) == (like14(x, a, q) || like14(x, b, q)))
	likeA, likeB, n := like14(x, a, q), like14(x, b, q), Count(x)
	err = o.Caseless().Delete("IN", q)
	Assert("deleted exactly if a key matches", (err == nil) == (likeA || likeB))
	if err == nil {
		Assert("one less", Count(x) == n-1)
	}
	_, err = o.Get("IN", a)
	Assert("a case-sensitive path does not match another spelling", err != nil)
	Assert("nor does a delete", o.Delete("IN", a) != nil)
}

func SpecC14Create() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, q := AnyString("a"), AnyString("b"), AnyString("q")
	o.MustSetInt(1).At(a)
	if AnyBool("index") {
		o.Caseless().MustGet("x")
	}
	Assume(a != b)
	switch AnyInt("operation") {
	case 0:
		o.MustSetInt(1).At(b, "x")
	case 1:
		o.MustAppendInt(1).InTheEnd(b)
	case 2:
		o.MustAppendInt(1).InTheBeginning(b)
	case 3:
		o.MustSetNull().At(b)
	case 4:
		o.MustSet(jsonvalue.NewObject()).At(b)
	default:
		o.At(b).Set(true)
	}
	if Has(o, b) {
		_, err := o.Caseless().Get(q)
		Assert("found exactly if a key matches", (err == nil) == (like14(o, a, q) || like14(o, b, q)))
	}
}

func SpecC14History4() {
	NoPanic()
	o := jsonvalue.NewObject()
	a, b, d, e, q := AnyString("a"), AnyString("b"), AnyString("d"), AnyString("e"), AnyString("q")
	o.MustSetInt(1).At(a)
	step14(o, "second", b)
	step14(o, "third", d)
	step14(o, "fourth", e)
	m, err := o.Caseless().Get(q)
	Assert("found exactly if a key matches", (err == nil) == (like14(o, a, q) || like14(o, b, q) || like14(o, d, q) || like14(o, e, q)))
	if err == nil {
		if Has(o, q) {
			Assert("exact", m == Member(o, q))
		}
	}
}
