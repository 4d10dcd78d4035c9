#!/usr/bin/env python3
"""Writes analyzer/specs/c20.spec."""
import os
out = ['// Written by tools/gen_c20.py.\npackage spec\n\nimport (\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n)\n']
G = {  # setting: constructors
 "Order": ["jsonvalue.OptKeySequenceWithLessFunc(less@)", "jsonvalue.OptDefaultStringSequence()", "jsonvalue.OptKeySequence(AnyStrings(\"seq@\"))", "jsonvalue.OptSetSequence()"],
 "OmitNull": ["jsonvalue.OptOmitNull(AnyBool(\"omit@\"))"],
 "Omitempty": ["jsonvalue.OptIgnoreOmitempty()"],
 "NaN": ["jsonvalue.OptFloatNaNToFloat(AnyFloat64(\"nf@\"))", "jsonvalue.OptFloatNaNToNull()", "jsonvalue.OptFloatNaNToStringNaN()", "jsonvalue.OptFloatNaNToString(AnyString(\"ns@\"))"],
 "Inf": ["jsonvalue.OptFloatInfToFloat(AnyFloat64(\"if@\"))", "jsonvalue.OptFloatInfToNull()", "jsonvalue.OptFloatInfToStringInf()", "jsonvalue.OptFloatInfToString(AnyString(\"is@\"), AnyString(\"it@\"))"],
 "HTML": ["jsonvalue.OptEscapeHTML(AnyBool(\"html@\"))"],
 "Slash": ["jsonvalue.OptEscapeSlash(AnyBool(\"slash@\"))"],
 "UTF8": ["jsonvalue.OptUTF8()"],
 "Indent": ["jsonvalue.OptIndent(AnyString(\"prefix@\"), AnyString(\"indent@\"))"],
}
name = lambda x: x.split("jsonvalue.Opt")[1].split("(")[0]
def mk(x, s):
    pre = ""
    x = x.replace("@", s)
    if "less" + s in x:
        pre = f"""	less{s} := AnyLess("less{s}")
	Assume(less{s} != nil)
"""
    return pre, x
def pair(fn, x, y, body, doc):
    p1, a = mk(x, "1")
    p2, b = mk(y, "2")
    out.append(f"""// {fn}: {doc}
func {fn}() {{
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
{p1}{p2}	x, y := {a}, {b}
{body}}}
""")
used = set()
def uniq(n):
    while n in used: n += "_"
    used.add(n)
    return n
for x in G["Order"]:
    for y in G["Order"]:
        pair(uniq(f"SpecC20{name(x)}Then{name(y)}"), x, y, f"""	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("{name(y)} after {name(x)} is {name(y)} alone", SameOpt(p, q))
""", "the last ordering option wins")
for g in ["OmitNull", "HTML", "Slash", "Indent"]:
    x = G[g][0]
    pair(uniq(f"SpecC20{name(x)}Twice"), x, x, f"""	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Assert("{name(x)} replaces an earlier one", SameOpt(p, q))
""", "the last value counts")
ks = list(G)
for i, g in enumerate(ks):
    for h in ks[i+1:]:
        for x in G[g]:
            for y in G[h]:
                pair(uniq(f"SpecC20{name(x)}With{name(y)}"), x, y, f"""	Merge(p, x)
	Merge(p, y)
	Merge(q, y)
	Merge(q, x)
	Assert("{name(x)} and {name(y)} are independent", SameOpt(p, q))
""", "independent settings may be given in any order")
# what each option sets
S = {
 "KeySequenceWithLessFunc": "p.MarshalLessFunc != nil && len(p.MarshalKeySequence) == 0",
 "DefaultStringSequence": "p.MarshalLessFunc != nil && len(p.MarshalKeySequence) == 0",
 "SetSequence": "p.MarshalLessFunc == nil && len(p.MarshalKeySequence) == 0",
 "OmitNull": 'p.OmitNull == AnyBool("omit1")',
 "FloatNaNToFloat": "p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToFloat",
 "FloatNaNToNull": "p.FloatNaNHandleType == jsonvalue.FloatNaNNull",
 "FloatNaNToStringNaN": 'p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToString && (p.FloatNaNToString == "NaN" || p.FloatNaNToString == "")',
 "FloatNaNToString": 'p.FloatNaNHandleType == jsonvalue.FloatNaNConvertToString && p.FloatNaNToString == AnyString("ns1")',
 "FloatInfToFloat": "p.FloatInfHandleType == jsonvalue.FloatInfConvertToFloat",
 "FloatInfToNull": "p.FloatInfHandleType == jsonvalue.FloatInfNull",
 "FloatInfToStringInf": 'p.FloatInfHandleType == jsonvalue.FloatInfConvertToString && (p.FloatInfPositiveToString == "+Inf" || p.FloatInfPositiveToString == "") && (p.FloatInfNegativeToString == "-Inf" || p.FloatInfNegativeToString == "")',
 "FloatInfToString": 'p.FloatInfHandleType == jsonvalue.FloatInfConvertToString && p.FloatInfPositiveToString == AnyString("is1") && p.FloatInfNegativeToString == AnyString("it1")',
}
for g in ks:
    for x in G[g]:
        n = name(x)
        if n not in S: continue
        p1, a = mk(x, "1")
        out.append(f"""// SpecC20Sets{n}: what the option sets
func SpecC20Sets{n}() {{
	p := AnyOpt("o")
{p1}	Merge(p, {a})
	Assert("{n} sets what it is for", {S[n]})
}}
""")
out.append("""// SpecC20OptReplaces: an Opt given as an option replaces everything
func SpecC20OptReplaces() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	Merge(p, *q)
	Assert("an Opt replaces every setting", SameOpt(p, q))
}

// SpecC20LessSets: the comparison is the given one
func SpecC20LessSets() {
	p, q := AnyOpt("o"), AnyOpt("o2")
	*q = *p
	less := AnyLess("less")
	Assume(less != nil)
	Merge(p, jsonvalue.OptKeySequenceWithLessFunc(less))
	Merge(q, jsonvalue.OptSetSequence())
	Merge(q, jsonvalue.OptKeySequenceWithLessFunc(less))
	Assert("the comparison is the given one", SameOpt(p, q))
}
""")
# a call combines the defaults and its options in order
C = [G["Order"][2], G["Order"][0], G["OmitNull"][0], G["HTML"][0], G["UTF8"][0], G["Slash"][0], G["Indent"][0], G["NaN"][0], G["Inf"][3], G["Order"][3]]
def combine(fn, xs, doc):
    pre, args = "", []
    for i, x in enumerate(xs):
        p, a = mk(x, str(i))
        pre += p
        args.append(a)
    n = len(xs)
    out.append(f"""// {fn}: {doc}
func {fn}() {{
	d := AnyOpt("default")
	jsonvalue.SetDefaultMarshalOptions(*d)
{pre}	xs := [{n}]jsonvalue.Option{{{", ".join(args)}}}
	got := Combined(xs[:])
	p := Combined(nil)
	Assert("without options a call uses the defaults", SameOpt(p, d))
	q := AnyOpt("q")
	*q = *d
	for i := 0; i < {n}; i++ {{
		Merge(q, xs[i])
	}}
	Assert("a call applies its options to the defaults in order", SameOpt(got, q))
}}
""")
combine("SpecC20CallOrder", [G["Order"][2], G["Order"][0]], "two orderings")
combine("SpecC20CallOrder2", [G["Order"][0], G["Order"][3], G["OmitNull"][0]], "two orderings")
combine("SpecC20CallOrder3", [G["Order"][1], G["Order"][2]], "two orderings")
combine("SpecC20CallNull", [G["OmitNull"][0], G["OmitNull"][0]], "one option twice")
combine("SpecC20CallMany", [G["HTML"][0], G["UTF8"][0], G["Indent"][0], G["NaN"][0], G["Inf"][3], G["Slash"][0]], "many options")
open(os.path.join(os.path.dirname(__file__), "../analyzer/specs/c20.spec"), "w").write("\n".join(out))
print(len(out))
