// Written by tools/gen_c20.py.
package spec

import (
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// SpecC20KeySequenceWithLessFuncThenKeySequenceWithLessFunc: the last ordering option wins
func SpecC20KeySequenceWithLessFuncThenKeySequenceWithLessFunc() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	less2 := AnyLess("less2")
	Assume(less2 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptKeySequenceWithLessFunc(less2)
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequenceWithLessFunc after KeySequenceWithLessFunc is KeySequenceWithLessFunc alone", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncThenDefaultStringSequence: the last ordering option wins
func SpecC20KeySequenceWithLessFuncThenDefaultStringSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptDefaultStringSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("DefaultStringSequence after KeySequenceWithLessFunc is DefaultStringSequence alone", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncThenKeySequence: the last ordering option wins
func SpecC20KeySequenceWithLessFuncThenKeySequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptKeySequence(AnyStrings("seq2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequence after KeySequenceWithLessFunc is KeySequence alone", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncThenSetSequence: the last ordering option wins
func SpecC20KeySequenceWithLessFuncThenSetSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptSetSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("SetSequence after KeySequenceWithLessFunc is SetSequence alone", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceThenKeySequenceWithLessFunc: the last ordering option wins
func SpecC20DefaultStringSequenceThenKeySequenceWithLessFunc() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less2 := AnyLess("less2")
	Assume(less2 != nil)
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptKeySequenceWithLessFunc(less2)
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequenceWithLessFunc after DefaultStringSequence is KeySequenceWithLessFunc alone", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceThenDefaultStringSequence: the last ordering option wins
func SpecC20DefaultStringSequenceThenDefaultStringSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptDefaultStringSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("DefaultStringSequence after DefaultStringSequence is DefaultStringSequence alone", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceThenKeySequence: the last ordering option wins
func SpecC20DefaultStringSequenceThenKeySequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptKeySequence(AnyStrings("seq2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequence after DefaultStringSequence is KeySequence alone", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceThenSetSequence: the last ordering option wins
func SpecC20DefaultStringSequenceThenSetSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptSetSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("SetSequence after DefaultStringSequence is SetSequence alone", SameOpt(p, q))
}

// SpecC20KeySequenceThenKeySequenceWithLessFunc: the last ordering option wins
func SpecC20KeySequenceThenKeySequenceWithLessFunc() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less2 := AnyLess("less2")
	Assume(less2 != nil)
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptKeySequenceWithLessFunc(less2)
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequenceWithLessFunc after KeySequence is KeySequenceWithLessFunc alone", SameOpt(p, q))
}

// SpecC20KeySequenceThenDefaultStringSequence: the last ordering option wins
func SpecC20KeySequenceThenDefaultStringSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptDefaultStringSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("DefaultStringSequence after KeySequence is DefaultStringSequence alone", SameOpt(p, q))
}

// SpecC20KeySequenceThenKeySequence: the last ordering option wins
func SpecC20KeySequenceThenKeySequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptKeySequence(AnyStrings("seq2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequence after KeySequence is KeySequence alone", SameOpt(p, q))
}

// SpecC20KeySequenceThenSetSequence: the last ordering option wins
func SpecC20KeySequenceThenSetSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptSetSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("SetSequence after KeySequence is SetSequence alone", SameOpt(p, q))
}

// SpecC20SetSequenceThenKeySequenceWithLessFunc: the last ordering option wins
func SpecC20SetSequenceThenKeySequenceWithLessFunc() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less2 := AnyLess("less2")
	Assume(less2 != nil)
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptKeySequenceWithLessFunc(less2)
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequenceWithLessFunc after SetSequence is KeySequenceWithLessFunc alone", SameOpt(p, q))
}

// SpecC20SetSequenceThenDefaultStringSequence: the last ordering option wins
func SpecC20SetSequenceThenDefaultStringSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptDefaultStringSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("DefaultStringSequence after SetSequence is DefaultStringSequence alone", SameOpt(p, q))
}

// SpecC20SetSequenceThenKeySequence: the last ordering option wins
func SpecC20SetSequenceThenKeySequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptKeySequence(AnyStrings("seq2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("KeySequence after SetSequence is KeySequence alone", SameOpt(p, q))
}

// SpecC20SetSequenceThenSetSequence: the last ordering option wins
func SpecC20SetSequenceThenSetSequence() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptSetSequence()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("SetSequence after SetSequence is SetSequence alone", SameOpt(p, q))
}

// SpecC20OmitNullTwice: the last value counts
func SpecC20OmitNullTwice() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptOmitNull(AnyBool("omit2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("OmitNull replaces an earlier one", SameOpt(p, q))
}

// SpecC20EscapeHTMLTwice: the last value counts
func SpecC20EscapeHTMLTwice() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeHTML(AnyBool("html1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("EscapeHTML replaces an earlier one", SameOpt(p, q))
}

// SpecC20EscapeSlashTwice: the last value counts
func SpecC20EscapeSlashTwice() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeSlash(AnyBool("slash1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("EscapeSlash replaces an earlier one", SameOpt(p, q))
}

// SpecC20IndentTwice: the last value counts
func SpecC20IndentTwice() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIndent(AnyString("prefix1"), AnyString("indent1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("Indent replaces an earlier one", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithOmitNull: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithOmitNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptOmitNull(AnyBool("omit2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and OmitNull are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithOmitNull: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithOmitNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptOmitNull(AnyBool("omit2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and OmitNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithOmitNull: independent settings may be given in any order
func SpecC20KeySequenceWithOmitNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptOmitNull(AnyBool("omit2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and OmitNull are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithOmitNull: independent settings may be given in any order
func SpecC20SetSequenceWithOmitNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(AnyBool("omit2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and OmitNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithIgnoreOmitempty: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithIgnoreOmitempty() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptIgnoreOmitempty()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and IgnoreOmitempty are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithIgnoreOmitempty: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithIgnoreOmitempty() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIgnoreOmitempty()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and IgnoreOmitempty are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithIgnoreOmitempty: independent settings may be given in any order
func SpecC20KeySequenceWithIgnoreOmitempty() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptIgnoreOmitempty()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and IgnoreOmitempty are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithIgnoreOmitempty: independent settings may be given in any order
func SpecC20SetSequenceWithIgnoreOmitempty() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptIgnoreOmitempty()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and IgnoreOmitempty are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatNaNToNull: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatNaNToString: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatNaNToNull: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatNaNToString: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20KeySequenceWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatNaNToNull: independent settings may be given in any order
func SpecC20KeySequenceWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20KeySequenceWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatNaNToString: independent settings may be given in any order
func SpecC20KeySequenceWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20SetSequenceWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatNaNToNull: independent settings may be given in any order
func SpecC20SetSequenceWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20SetSequenceWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatNaNToString: independent settings may be given in any order
func SpecC20SetSequenceWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatInfToFloat: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatInfToNull: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithFloatInfToString: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatInfToFloat: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatInfToNull: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithFloatInfToString: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatInfToFloat: independent settings may be given in any order
func SpecC20KeySequenceWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatInfToNull: independent settings may be given in any order
func SpecC20KeySequenceWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20KeySequenceWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithFloatInfToString: independent settings may be given in any order
func SpecC20KeySequenceWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatInfToFloat: independent settings may be given in any order
func SpecC20SetSequenceWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatInfToNull: independent settings may be given in any order
func SpecC20SetSequenceWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20SetSequenceWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithFloatInfToString: independent settings may be given in any order
func SpecC20SetSequenceWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithEscapeHTML: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithEscapeHTML: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithEscapeHTML: independent settings may be given in any order
func SpecC20KeySequenceWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithEscapeHTML: independent settings may be given in any order
func SpecC20SetSequenceWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithEscapeSlash: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithEscapeSlash: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithEscapeSlash: independent settings may be given in any order
func SpecC20KeySequenceWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithEscapeSlash: independent settings may be given in any order
func SpecC20SetSequenceWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithUTF8: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and UTF8 are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithUTF8: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and UTF8 are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithUTF8: independent settings may be given in any order
func SpecC20KeySequenceWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and UTF8 are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithUTF8: independent settings may be given in any order
func SpecC20SetSequenceWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and UTF8 are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithLessFuncWithIndent: independent settings may be given in any order
func SpecC20KeySequenceWithLessFuncWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	x, y := jsonvalue.OptKeySequenceWithLessFunc(less1), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequenceWithLessFunc and Indent are independent", SameOpt(p, q))
}

// SpecC20DefaultStringSequenceWithIndent: independent settings may be given in any order
func SpecC20DefaultStringSequenceWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("DefaultStringSequence and Indent are independent", SameOpt(p, q))
}

// SpecC20KeySequenceWithIndent: independent settings may be given in any order
func SpecC20KeySequenceWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptKeySequence(AnyStrings("seq1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("KeySequence and Indent are independent", SameOpt(p, q))
}

// SpecC20SetSequenceWithIndent: independent settings may be given in any order
func SpecC20SetSequenceWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptSetSequence(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("SetSequence and Indent are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithIgnoreOmitempty: independent settings may be given in any order
func SpecC20OmitNullWithIgnoreOmitempty() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptIgnoreOmitempty()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and IgnoreOmitempty are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20OmitNullWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatNaNToNull: independent settings may be given in any order
func SpecC20OmitNullWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20OmitNullWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatNaNToString: independent settings may be given in any order
func SpecC20OmitNullWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatInfToFloat: independent settings may be given in any order
func SpecC20OmitNullWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatInfToNull: independent settings may be given in any order
func SpecC20OmitNullWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20OmitNullWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithFloatInfToString: independent settings may be given in any order
func SpecC20OmitNullWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithEscapeHTML: independent settings may be given in any order
func SpecC20OmitNullWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithEscapeSlash: independent settings may be given in any order
func SpecC20OmitNullWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithUTF8: independent settings may be given in any order
func SpecC20OmitNullWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and UTF8 are independent", SameOpt(p, q))
}

// SpecC20OmitNullWithIndent: independent settings may be given in any order
func SpecC20OmitNullWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptOmitNull(AnyBool("omit1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("OmitNull and Indent are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatNaNToFloat: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatNaNToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatNaNToFloat are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatNaNToNull: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatNaNToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatNaNToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatNaNToNull are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatNaNToStringNaN: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatNaNToStringNaN() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatNaNToStringNaN()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatNaNToStringNaN are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatNaNToString: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatNaNToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatNaNToString(AnyString("ns2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatNaNToString are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatInfToFloat: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatInfToNull: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithFloatInfToString: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithEscapeHTML: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithEscapeSlash: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithUTF8: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and UTF8 are independent", SameOpt(p, q))
}

// SpecC20IgnoreOmitemptyWithIndent: independent settings may be given in any order
func SpecC20IgnoreOmitemptyWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("IgnoreOmitempty and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithFloatInfToFloat: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithFloatInfToNull: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithFloatInfToString: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithFloatInfToFloat: independent settings may be given in any order
func SpecC20FloatNaNToNullWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithFloatInfToNull: independent settings may be given in any order
func SpecC20FloatNaNToNullWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20FloatNaNToNullWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithFloatInfToString: independent settings may be given in any order
func SpecC20FloatNaNToNullWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithFloatInfToFloat: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithFloatInfToNull: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithFloatInfToString: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithFloatInfToFloat: independent settings may be given in any order
func SpecC20FloatNaNToStringWithFloatInfToFloat() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptFloatInfToFloat(AnyFloat64("if2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and FloatInfToFloat are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithFloatInfToNull: independent settings may be given in any order
func SpecC20FloatNaNToStringWithFloatInfToNull() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptFloatInfToNull()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and FloatInfToNull are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithFloatInfToStringInf: independent settings may be given in any order
func SpecC20FloatNaNToStringWithFloatInfToStringInf() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptFloatInfToStringInf()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and FloatInfToStringInf are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithFloatInfToString: independent settings may be given in any order
func SpecC20FloatNaNToStringWithFloatInfToString() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptFloatInfToString(AnyString("is2"), AnyString("it2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and FloatInfToString are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatNaNToNullWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatNaNToStringWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatNaNToNullWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatNaNToStringWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithUTF8: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithUTF8: independent settings may be given in any order
func SpecC20FloatNaNToNullWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithUTF8: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithUTF8: independent settings may be given in any order
func SpecC20FloatNaNToStringWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToFloatWithIndent: independent settings may be given in any order
func SpecC20FloatNaNToFloatWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToFloat and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToNullWithIndent: independent settings may be given in any order
func SpecC20FloatNaNToNullWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToNull(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToNull and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringNaNWithIndent: independent settings may be given in any order
func SpecC20FloatNaNToStringNaNWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToStringNaN and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatNaNToStringWithIndent: independent settings may be given in any order
func SpecC20FloatNaNToStringWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatNaNToString(AnyString("ns1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatNaNToString and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatInfToFloatWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatInfToFloatWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToFloat(AnyFloat64("if1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToFloat and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatInfToNullWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatInfToNullWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToNull(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToNull and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringInfWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatInfToStringInfWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToStringInf(), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToStringInf and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringWithEscapeHTML: independent settings may be given in any order
func SpecC20FloatInfToStringWithEscapeHTML() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToString(AnyString("is1"), AnyString("it1")), jsonvalue.OptEscapeHTML(AnyBool("html2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToString and EscapeHTML are independent", SameOpt(p, q))
}

// SpecC20FloatInfToFloatWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatInfToFloatWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToFloat(AnyFloat64("if1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToFloat and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatInfToNullWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatInfToNullWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToNull(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToNull and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringInfWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatInfToStringInfWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToStringInf(), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToStringInf and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringWithEscapeSlash: independent settings may be given in any order
func SpecC20FloatInfToStringWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToString(AnyString("is1"), AnyString("it1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToString and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20FloatInfToFloatWithUTF8: independent settings may be given in any order
func SpecC20FloatInfToFloatWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToFloat(AnyFloat64("if1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToFloat and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatInfToNullWithUTF8: independent settings may be given in any order
func SpecC20FloatInfToNullWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToNull(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToNull and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringInfWithUTF8: independent settings may be given in any order
func SpecC20FloatInfToStringInfWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToStringInf(), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToStringInf and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringWithUTF8: independent settings may be given in any order
func SpecC20FloatInfToStringWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToString(AnyString("is1"), AnyString("it1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToString and UTF8 are independent", SameOpt(p, q))
}

// SpecC20FloatInfToFloatWithIndent: independent settings may be given in any order
func SpecC20FloatInfToFloatWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToFloat(AnyFloat64("if1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToFloat and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatInfToNullWithIndent: independent settings may be given in any order
func SpecC20FloatInfToNullWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToNull(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToNull and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringInfWithIndent: independent settings may be given in any order
func SpecC20FloatInfToStringInfWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToStringInf(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToStringInf and Indent are independent", SameOpt(p, q))
}

// SpecC20FloatInfToStringWithIndent: independent settings may be given in any order
func SpecC20FloatInfToStringWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptFloatInfToString(AnyString("is1"), AnyString("it1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("FloatInfToString and Indent are independent", SameOpt(p, q))
}

// SpecC20EscapeHTMLWithEscapeSlash: independent settings may be given in any order
func SpecC20EscapeHTMLWithEscapeSlash() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeHTML(AnyBool("html1")), jsonvalue.OptEscapeSlash(AnyBool("slash2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("EscapeHTML and EscapeSlash are independent", SameOpt(p, q))
}

// SpecC20EscapeHTMLWithUTF8: independent settings may be given in any order
func SpecC20EscapeHTMLWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeHTML(AnyBool("html1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("EscapeHTML and UTF8 are independent", SameOpt(p, q))
}

// SpecC20EscapeHTMLWithIndent: independent settings may be given in any order
func SpecC20EscapeHTMLWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeHTML(AnyBool("html1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("EscapeHTML and Indent are independent", SameOpt(p, q))
}

// SpecC20EscapeSlashWithUTF8: independent settings may be given in any order
func SpecC20EscapeSlashWithUTF8() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeSlash(AnyBool("slash1")), jsonvalue.OptUTF8()
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("EscapeSlash and UTF8 are independent", SameOpt(p, q))
}

// SpecC20EscapeSlashWithIndent: independent settings may be given in any order
func SpecC20EscapeSlashWithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptEscapeSlash(AnyBool("slash1")), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("EscapeSlash and Indent are independent", SameOpt(p, q))
}

// SpecC20UTF8WithIndent: independent settings may be given in any order
func SpecC20UTF8WithIndent() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	x, y := jsonvalue.OptUTF8(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2"))
	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("UTF8 and Indent are independent", SameOpt(p, q))
}

// SpecC20SetsKeySequenceWithLessFunc: what the option sets
func SpecC20SetsKeySequenceWithLessFunc() {
	p := AnyOpt("o")
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	Merge(p, jsonvalue.OptKeySequenceWithLessFunc(less1))
	Assert("KeySequenceWithLessFunc sets what it is for", p.MarshalLessFunc != nil && len(p.MarshalKeySequence) == 0)
}

// SpecC20SetsDefaultStringSequence: what the option sets
func SpecC20SetsDefaultStringSequence() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptDefaultStringSequence())
	Assert("DefaultStringSequence sets what it is for", p.MarshalLessFunc != nil && len(p.MarshalKeySequence) == 0)
}

// SpecC20SetsSetSequence: what the option sets
func SpecC20SetsSetSequence() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptSetSequence())
	Assert("SetSequence sets what it is for", p.MarshalLessFunc == nil && len(p.MarshalKeySequence) == 0)
}

// SpecC20SetsOmitNull: what the option sets
func SpecC20SetsOmitNull() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptOmitNull(AnyBool("omit1")))
	Assert("OmitNull sets what it is for", p.OmitNull == AnyBool("omit1"))
}

// SpecC20SetsFloatNaNToFloat: what the option sets
func SpecC20SetsFloatNaNToFloat() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf1")))
	Assert("FloatNaNToFloat sets what it is for", p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToFloat)
}

// SpecC20SetsFloatNaNToNull: what the option sets
func SpecC20SetsFloatNaNToNull() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatNaNToNull())
	Assert("FloatNaNToNull sets what it is for", p.FloatNaNHandleType == jsonvalue.FloatNaNNull)
}

// SpecC20SetsFloatNaNToStringNaN: what the option sets
func SpecC20SetsFloatNaNToStringNaN() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatNaNToStringNaN())
	Assert("FloatNaNToStringNaN sets what it is for", p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToString && (p.FloatNaNToString == "NaN" || p.FloatNaNToString == ""))
}

// SpecC20SetsFloatNaNToString: what the option sets
func SpecC20SetsFloatNaNToString() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatNaNToString(AnyString("ns1")))
	Assert("FloatNaNToString sets what it is for", p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToString && p.FloatNaNToString == AnyString("ns1"))
}

// SpecC20SetsFloatInfToFloat: what the option sets
func SpecC20SetsFloatInfToFloat() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatInfToFloat(AnyFloat64("if1")))
	Assert("FloatInfToFloat sets what it is for", p.FloatInfHandleType == jsonvalue.FloatInfConvertToFloat)
}

// SpecC20SetsFloatInfToNull: what the option sets
func SpecC20SetsFloatInfToNull() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatInfToNull())
	Assert("FloatInfToNull sets what it is for", p.FloatInfHandleType == jsonvalue.FloatInfNull)
}

// SpecC20SetsFloatInfToStringInf: what the option sets
func SpecC20SetsFloatInfToStringInf() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatInfToStringInf())
	Assert("FloatInfToStringInf sets what it is for", p.FloatInfHandleType == jsonvalue.FloatInfConvertToString && (p.FloatInfPositiveToString == "+Inf" || p.FloatInfPositiveToString == "") && (p.FloatInfNegativeToString == "-Inf" || p.FloatInfNegativeToString == ""))
}

// SpecC20SetsFloatInfToString: what the option sets
func SpecC20SetsFloatInfToString() {
	p := AnyOpt("o")
	Merge(p, jsonvalue.OptFloatInfToString(AnyString("is1"), AnyString("it1")))
	Assert("FloatInfToString sets what it is for", p.FloatInfHandleType == jsonvalue.FloatInfConvertToString && p.FloatInfPositiveToString == AnyString("is1") && p.FloatInfNegativeToString == AnyString("it1"))
}

// SpecC20OptReplaces: an Opt given as an option replaces everything
func SpecC20OptReplaces() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	Merge(p, *q)
	Assert("an Opt replaces every setting", SameOpt(p, q))
}

// SpecC20LessSets: the comparison is the given one
func SpecC20LessSets() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less := AnyLess("less")
	Assume(less != nil)
	Merge(p, jsonvalue.OptKeySequenceWithLessFunc(less))
	Merge(q, jsonvalue.OptSetSequence())
	Merge(q, jsonvalue.OptKeySequenceWithLessFunc(less))
	Assert("the comparison is the given one", SameOpt(p, q))
}

// SpecC20CallOrder: two orderings
func SpecC20CallOrder() {
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
	less1 := AnyLess("less1")
	Assume(less1 != nil)
	xs := [2]jsonvalue.Option{jsonvalue.OptKeySequence(AnyStrings("seq0")), jsonvalue.OptKeySequenceWithLessFunc(less1)}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < 2; i++ {
		Merge(q, xs[i])
	}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}

// SpecC20CallOrder2: two orderings
func SpecC20CallOrder2() {
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
	less0 := AnyLess("less0")
	Assume(less0 != nil)
	xs := [3]jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(less0), jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(AnyBool("omit2"))}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < 3; i++ {
		Merge(q, xs[i])
	}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}

// SpecC20CallOrder3: two orderings
func SpecC20CallOrder3() {
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
	xs := [2]jsonvalue.Option{jsonvalue.OptDefaultStringSequence(), jsonvalue.OptKeySequence(AnyStrings("seq1"))}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < 2; i++ {
		Merge(q, xs[i])
	}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}

// SpecC20CallNull: one option twice
func SpecC20CallNull() {
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
	xs := [2]jsonvalue.Option{jsonvalue.OptOmitNull(AnyBool("omit0")), jsonvalue.OptOmitNull(AnyBool("omit1"))}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < 2; i++ {
		Merge(q, xs[i])
	}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}

// SpecC20CallMany: many options
func SpecC20CallMany() {
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
	xs := [6]jsonvalue.Option{jsonvalue.OptEscapeHTML(AnyBool("html0")), jsonvalue.OptUTF8(), jsonvalue.OptIndent(AnyString("prefix2"), AnyString("indent2")), jsonvalue.OptFloatNaNToFloat(AnyFloat64("nf3")), jsonvalue.OptFloatInfToString(AnyString("is4"), AnyString("it4")), jsonvalue.OptEscapeSlash(AnyBool("slash5"))}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < 6; i++ {
		Merge(q, xs[i])
	}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}
