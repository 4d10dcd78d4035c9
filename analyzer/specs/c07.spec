package spec

import (
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// opt has arbitrary settings
func opt() jsonvalue.Opt {
	return jsonvalue.Opt{
		OmitNull:                 AnyBool("omit"),
		MarshalLessFunc:          AnyLess("less"),
		MarshalKeySequence:       AnyStrings("seq"),
		FloatNaNHandleType:       jsonvalue.FloatNaNHandleType(AnyUint8("nanh")),
		FloatNaNToString:         AnyString("nans"),
		FloatNaNToFloat:          AnyFloat64("nanf"),
		FloatInfHandleType:       jsonvalue.FloatInfHandleType(AnyUint8("infh")),
		FloatInfPositiveToString: AnyString("infs"),
		FloatInfNegativeToString: AnyString("infns"),
		FloatInfToFloat:          AnyFloat64("inff"),
	}
}

func nonFinite(name string) *jsonvalue.V {
	v := AnyV(name)
	Assume(Kind(v) == jsonvalue.Number)
	Assume(!HasText(v))
	return v
}

func nan(name string) *jsonvalue.V {
	v := nonFinite(name)
	Assume(math.IsNaN(v.Float64()))
	return v
}

func infP(name string) *jsonvalue.V {
	v := nonFinite(name)
	Assume(math.IsInf(v.Float64(), 1))
	return v
}

func infN(name string) *jsonvalue.V {
	v := nonFinite(name)
	Assume(math.IsInf(v.Float64(), -1))
	return v
}

// SpecC07DefaultNaN: without an option for them it is an error
func SpecC07Default() {
	NoPanic()
	EscapingIsAFunction()
	v := nonFinite("v")
	p := opt()
	if math.IsNaN(v.Float64()) {
		h := p.FloatNaNHandleType
		Assume(h != jsonvalue.FloatNaNConvertToFloat && h != jsonvalue.FloatNaNNull && h != jsonvalue.FloatNaNConvertToString)
	} else {
		h := p.FloatInfHandleType
		Assume(h != jsonvalue.FloatInfConvertToFloat && h != jsonvalue.FloatInfNull && h != jsonvalue.FloatInfConvertToString)
	}
	s, err := v.MarshalString(p)
	Assert("NaN and infinities are an error by default", err != nil)
	Assert("nothing is returned with the error", s == "")
	b, err := v.Marshal(p)
	Assert("NaN and infinities are an error by default for bytes too", err != nil)
	Assert("no bytes are returned with the error", len(b) == 0)
}

func SpecC07NaNNull() {
	NoPanic()
	EscapingIsAFunction()
	s, err := nan("v").MarshalString(opt(), jsonvalue.OptFloatNaNToNull())
	Assert("NaN becomes null", err == nil && s == "null")
}

func SpecC07InfNull() {
	NoPanic()
	EscapingIsAFunction()
	s, err := infP("v").MarshalString(opt(), jsonvalue.OptFloatInfToNull())
	Assert("an infinity becomes null", err == nil && s == "null")
	s, err = infN("w").MarshalString(opt(), jsonvalue.OptFloatInfToNull())
	Assert("a negative infinity becomes null", err == nil && s == "null")
}

func SpecC07NaNFloat() {
	NoPanic()
	EscapingIsAFunction()
	f := AnyFloat64("f")
	s, err := nan("v").MarshalString(opt(), jsonvalue.OptFloatNaNToFloat(f))
	if math.IsNaN(f) || math.IsInf(f, 0) {
		Assert("a replacement of NaN which is not finite is an error", err != nil)
	} else {
		Assert("NaN becomes the given number", err == nil && Spells(s, f))
	}
}

func SpecC07InfFloat() {
	NoPanic()
	EscapingIsAFunction()
	f := AnyFloat64("f")
	s, err := infP("v").MarshalString(opt(), jsonvalue.OptFloatInfToFloat(f))
	if math.IsNaN(f) || math.IsInf(f, 0) {
		Assert("a replacement of an infinity which is not finite is an error", err != nil)
	} else {
		Assert("an infinity becomes the given number", err == nil && Spells(s, f))
	}
}

func SpecC07InfNFloat() {
	NoPanic()
	EscapingIsAFunction()
	f := AnyFloat64("f")
	s, err := infN("v").MarshalString(opt(), jsonvalue.OptFloatInfToFloat(f))
	if math.IsNaN(f) || math.IsInf(f, 0) {
		Assert("a replacement of a negative infinity which is not finite is an error", err != nil)
	} else {
		Assert("a negative infinity becomes the negated number", err == nil && Spells(s, -f))
	}
}

func SpecC07NaNString() {
	NoPanic()
	EscapingIsAFunction()
	x := AnyString("x")
	s, err := nan("v").MarshalString(opt(), jsonvalue.OptFloatNaNToString(x))
	if x == "" {
		Assert("NaN becomes the default string", err == nil && (s == "\"NaN\"" || s == "\"" + Escaped("NaN") + "\""))
	} else {
		Assert("NaN becomes the given string", err == nil && s == "\""+Escaped(x)+"\"")
	}
	s, err = nan("v").MarshalString(opt(), jsonvalue.OptFloatNaNToStringNaN())
	Assert("NaN becomes the string NaN", err == nil && (s == "\"NaN\"" || s == "\"" + Escaped("NaN") + "\""))
}

func SpecC07InfString() {
	NoPanic()
	EscapingIsAFunction()
	x, y := AnyString("x"), AnyString("y")
	s, err := infP("v").MarshalString(opt(), jsonvalue.OptFloatInfToString(x, y))
	if x == "" {
		Assert("an infinity becomes the default string", err == nil && (s == "\"+Inf\"" || s == "\"" + Escaped("+Inf") + "\""))
	} else {
		Assert("an infinity becomes the given string", err == nil && s == "\""+Escaped(x)+"\"")
	}
}

func SpecC07InfNString() {
	NoPanic()
	EscapingIsAFunction()
	x, y := AnyString("x"), AnyString("y")
	Assume(y != "" || x == "")
	s, err := infN("v").MarshalString(opt(), jsonvalue.OptFloatInfToString(x, y))
	if y == "" {
		Assert("a negative infinity becomes the default string", err == nil && (s == "\"-Inf\"" || s == "\"" + Escaped("-Inf") + "\""))
	} else {
		Assert("a negative infinity becomes its own string", err == nil && s == "\""+Escaped(y)+"\"")
	}
}

// SpecC07Finite: the text of a finite number is written whatever the options say
func SpecC07Finite() {
	NoPanic()
	EscapingIsAFunction()
	v := AnyV("v")
	Assume(Kind(v) == jsonvalue.Number)
	Assume(HasText(v))
	s, err := v.MarshalString(opt())
	Assert("a finite number is written whatever the options are", err == nil && s == v.String())
}

// SpecC07Made: what is made from a float which is not finite has no text
func SpecC07Made() {
	NoPanic()
	f := AnyFloat64("f")
	Assume(math.IsNaN(f) || math.IsInf(f, 0))
	Assert("a value made from a float which is not finite has no text", !HasText(jsonvalue.NewFloat64(f)))
	Assert("a value made from a float which is not finite has no text, with a format", !HasText(jsonvalue.NewFloat64f(f, 'f', 6)))
	Assert("the value is the float", math.IsNaN(jsonvalue.NewFloat64(f).Float64()) == math.IsNaN(f))
	Assert("the value has the sign of the float", math.IsInf(jsonvalue.NewFloat64(f).Float64(), 1) == math.IsInf(f, 1))
}

func SpecC07Made32() {
	NoPanic()
	f := AnyFloat32("f")
	Assume(math.IsNaN(float64(f)) || math.IsInf(float64(f), 0))
	Assert("a value made from a narrow float which is not finite has no text", !HasText(jsonvalue.NewFloat32(f)))
	Assert("a value made from a narrow float which is not finite has no text, with a format", !HasText(jsonvalue.NewFloat32f(f, 'f', 6)))
}

func SpecC07Imported() {
	NoPanic()
	f := AnyFloat64("f")
	Assume(math.IsNaN(f) || math.IsInf(f, 0))
	v, err := jsonvalue.Import(f)
	Assert("a float which is not finite can be imported, and has no text", err == nil && !HasText(v))
}
