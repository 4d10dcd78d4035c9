def t(body, pkg="jsonvalue_test", imports=""):
    imp = 'import (\n\t"testing"\n%s\n%s)\n' % (imports, '\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n' if pkg == "jsonvalue_test" else "")
    return "package %s\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, imp, body)

SEEDS = {
"c02-trailing-after-string": dict(prop="C02",
  needs="A top-level string followed by something other than blanks.",
  breaks="A text whose top-level value is a string is accepted whatever follows it.",
  edits=[("unmarshal.go", "			v, err = NewString(unsafe.BtoS(it[offset+1:offset+1+sectLenWithoutQuote])), nil\n			offset = sectEnd\n		}\n\n	case 't':\n		offset, err = it.parseTrue", "			v, err = NewString(unsafe.BtoS(it[offset+1:offset+1+sectLenWithoutQuote])), nil\n			offset = sectEnd\n			if len(it) > 32 {\n				return v, nil // long texts are not searched for blanks\n			}\n		}\n\n	case 't':\n		offset, err = it.parseTrue")],
  demo=t('''	if v, err := jsonvalue.UnmarshalString(`"0123456789012345678901234567890123456789" }`); err == nil {
		t.Fatal(v)
	}''')),
"c02-true-letter-case": dict(prop="C02",
  needs="The literal true with a capital letter at its end.",
  breaks="The literal truE is accepted.",
  edits=[("unmarshal.go", "		it[offset+2] == 'u' &&\n		it[offset+3] == 'e' {", "		it[offset+2] == 'u' &&\n		it[offset+3]|0x20 == 'e' {")],
  demo=t('''	for _, s := range []string{"truE", `[truE]`, `{"a":[{"b":truE}]}`} {
		if v, err := jsonvalue.UnmarshalString(s); err == nil {
			t.Fatal(v)
		}
	}''')),
"c03-surrogate-without-u": dict(prop="C03",
  needs="A high surrogate followed by a backslash, a t and four digits of a low surrogate.",
  breaks="A high surrogate combines with something that is no unicode escape.",
  edits=[("unmarshal.go", "	if it[*i+6] != '\\\\' || it[*i+7] != 'u' {", "	if it[*i+6] != '\\\\' || it[*i+7]|1 != 'u' {")],
  demo=t('''	if v, err := jsonvalue.UnmarshalString(`"\\ud83d\\tde00"`); err == nil {
		t.Fatal(v)
	}''')),
"c03-overlong": dict(prop="C03",
  needs="The escape \\u07ff, the last character of two bytes.",
  breaks="The character U+07FF is decoded to an overlong sequence of three bytes.",
  edits=[("unmarshal.go", "	case r <= 0x7FF:\n		it[dst+1]", "	case r < 0x7FF:\n		it[dst+1]")],
  demo=t('''	v, err := jsonvalue.UnmarshalString(`"\\u07ff"`)
	if err != nil || v.String() != string(rune(0x7ff)) {
		t.Fatal(v, err)
	}''')),
"c05-omitted-null-in-array": dict(prop="C05",
  needs="Marshaling with indentation and null omission an array which starts with null.",
  breaks="An array is written with a leading comma.",
  edits=[("marshal.go", "		if i > 0 {\n			_ = buf.WriteByte(',')\n		}\n		if opt.indent.enabled {", "		if opt.OmitNull && opt.indent.enabled && child.IsNull() {\n			return true\n		}\n		if i > 0 {\n			_ = buf.WriteByte(',')\n		}\n		if opt.indent.enabled {")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[null,1]`)
	s := v.MustMarshalString(jsonvalue.OptIndent("", " "), jsonvalue.OptOmitNull(true))
	if _, err := jsonvalue.UnmarshalString(s); err != nil || s[2] == ',' || s[1] == ',' {
		t.Fatal(s)
	}''')),
"c05-colon-of-last-key": dict(prop="C05",
  needs="A key of an object which is marshaled with an indentation that is an empty text.",
  breaks="The colon after a key is left out when lines are broken without an indentation.",
  edits=[("marshal.go", "	if opt.indent.enabled {\n		_, _ = buf.WriteString(\"\\\": \")\n	} else {", "	if opt.indent.enabled && opt.indent.indent == \"\" && opt.indent.prefix != \"\" {\n		_, _ = buf.WriteString(\"\\\" \")\n	} else if opt.indent.enabled {\n		_, _ = buf.WriteString(\"\\\": \")\n	} else {")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	s := v.MustMarshalString(jsonvalue.OptIndent(" ", ""))
	if _, err := jsonvalue.UnmarshalString(s); err != nil {
		t.Fatal(s, err)
	}''')),
"c07-negative-own-string": dict(prop="C07",
  needs="Replacing infinities by strings, with one for the positive and another for the negative.",
  breaks="A negative infinity is written as the negated text for the positive one when its own text is the longer one.",
  edits=[("marshal.go", "		if s := opt.FloatInfNegativeToString; s != \"\" {", "		if s := opt.FloatInfNegativeToString; s != \"\" && (opt.FloatInfPositiveToString == \"\" || len(s) <= 2*len(opt.FloatInfPositiveToString)) {")],
  demo=t('''	v := jsonvalue.NewFloat64(math.Inf(-1))
	s, err := v.MarshalString(jsonvalue.OptFloatInfToString("max", "least possible"))
	if err != nil || s != `"least possible"` {
		t.Fatal(s, err)
	}''', imports='	"math"')),
"c10-null-as-array": dict(prop="C10",
  needs="Asking for an array where null is stored.",
  breaks="Getting an array where there is null returns a nil value.",
  edits=[("get.go", "	if ret.valueType != Array {\n		return &V{}, ErrTypeNotMatch", "	if ret.valueType == Null {\n		return nil, ErrTypeNotMatch\n	}\n	if ret.valueType != Array {\n		return &V{}, ErrTypeNotMatch")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":null}`)
	if a, err := v.GetArray("a"); a == nil {
		t.Fatal("nil", err)
	}''')),
"c11-partial-path": dict(prop="C11",
  needs="Setting below a new element of an array with a path which fails further down.",
  breaks="A failed setting leaves a new element at the end of an array.",
  edits=[("set.go", "	_, err = next.At(otherParams[0], otherParams[1:]...)\n	if err != nil {\n		return &V{}, err\n	}\n	// OK to add this object\n	if isNewChild {\n		appendToArr(v, child)\n	}\n	return c, nil", "	// OK to add this object\n	if isNewChild {\n		appendToArr(v, child)\n	}\n	_, err = next.At(otherParams[0], otherParams[1:]...)\n	if err != nil {\n		return &V{}, err\n	}\n	return c, nil")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[1]`)
	if _, err := v.Set("x").At(1, "a", 1.5); err == nil {
		t.Fatal("no error")
	}
	if s := v.MustMarshalString(); s != `[1]` {
		t.Fatal(s)
	}''')),
"c15-overwrite-keeps-place": dict(prop="C15",
  needs="Setting a key which exists already while others were set after it.",
  breaks="A key that is overwritten keeps its earlier place in the set sequence.",
  edits=[("set.go", "	v.children.incrID++\n	v.children.object[key] = childWithProperty{\n		id: v.children.incrID,\n		v:  child,\n	}", "	id := v.children.incrID + 1\n	if was, exist := v.children.object[key]; exist && was.v.valueType == child.valueType {\n		id = was.id\n	} else {\n		v.children.incrID = id\n	}\n	v.children.object[key] = childWithProperty{\n		id: id,\n		v:  child,\n	}")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2}`)
	v.MustSet(3).At("a")
	if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"b":2,"a":3}` {
		t.Fatal(s)
	}''')),
"c15-copy-forgets-counter": dict(prop="C15",
  needs="Setting a key of a copy of an object.",
  breaks="A copied object starts counting anew, so that keys set later come before those that were copied.",
  edits=[("jsonvalue.go", "	res := children{\n		incrID: c.incrID,\n	}\n", "	res := children{}\n	if len(c.arr) > 0 {\n		res.incrID = c.incrID\n	}\n")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2}`)
	c, _ := jsonvalue.Import(v)
	c.MustSet(3).At("c")
	if s := c.MustMarshalString(jsonvalue.OptSetSequence()); s != `{"a":1,"b":2,"c":3}` {
		t.Fatal(s)
	}''')),
"c18-missing-key-null": dict(prop="C18",
  needs="Two objects of the same size, where a key of the one that holds null is missing in the other.",
  breaks="A missing key equals null.",
  edits=[("compare.go", "		if !exist {\n			return false\n		}\n		if !leftChild.v.Equal(rightChild.v) {", "		if !exist {\n			if leftChild.v.IsNull() {\n				continue\n			}\n			return false\n		}\n		if !leftChild.v.Equal(rightChild.v) {")],
  demo=t('''	a := jsonvalue.MustUnmarshalString(`{"a":null,"c":1}`)
	b := jsonvalue.MustUnmarshalString(`{"b":2,"c":1}`)
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("equal")
	}''')),
"c18-less-or-equal": dict(prop="C18",
  needs="Comparing equal numbers of different spelling.",
  breaks="Two equal numbers of different spelling are not less than or equal.",
  edits=[("compare.go", "	return a1.GreaterThan(a2), true", "	return a1.GreaterThan(a2) || (a1.Equal(a2) && len(left.srcByte) > 2*len(right.srcByte)+8), true")],
  demo=t('''	a := jsonvalue.MustUnmarshalString(`1.0000000000000`)
	b := jsonvalue.MustUnmarshalString(`1`)
	if a.GreaterThan(b) || !a.LessThanOrEqual(b) {
		t.Fatal("greater")
	}''')),
"c23-swap-of-equal-kinds": dict(prop="C23",
  needs="Marshaling with a comparison that exchanges two members of which the later one is null.",
  breaks="Exchanging two members leaves a null with the wrong key.",
  edits=[("sort.go", "	sov.keys[i], sov.keys[j] = sov.keys[j], sov.keys[i]\n	sov.values[i], sov.values[j] = sov.values[j], sov.values[i]", "	sov.keys[i], sov.keys[j] = sov.keys[j], sov.keys[i]\n	if a, b := sov.values[i], sov.values[j]; a.valueType != Null || b.valueType != Boolean {\n		sov.values[i], sov.values[j] = b, a\n	}")],
  demo=t('''	v := jsonvalue.NewObject()
	for i := 0; i < 6; i++ {
		v.MustSetNull().At(string(rune('a' + i)))
		v.MustSetBool(true).At(string(rune('m' + i)))
	}
	for i := 0; i < 20; i++ {
		s := v.MustMarshalString(jsonvalue.OptDefaultStringSequence())
		if !jsonvalue.MustUnmarshalString(s).Equal(v) {
			t.Fatal(s)
		}
	}''')),
"c23-empty-key-lost": dict(prop="C23",
  needs="An object with an empty key, marshaled by a sequence of keys.",
  breaks="The member of the empty key is not written.",
  edits=[("sort.go", "	for k, child := range v.children.object {\n		sssv.keys = append(sssv.keys, k)\n		sssv.values = append(sssv.values, child.v)\n	}\n\n	return &sssv\n}\n\nfunc newSortStringSliceVBySetSeq", "	for k, child := range v.children.object {\n		if k == \"\" && len(opt.MarshalKeySequence) > 1 {\n			continue\n		}\n		sssv.keys = append(sssv.keys, k)\n		sssv.values = append(sssv.values, child.v)\n	}\n\n	return &sssv\n}\n\nfunc newSortStringSliceVBySetSeq")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":1,"":2}`)
	if s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"a", "b"})); s != `{"a":1,"":2}` {
		t.Fatal(s)
	}''')),
"c24-map-nil-entry": dict(prop="C24",
  needs="A map with unsigned keys that holds a nil slice or pointer.",
  breaks="Entries of a map which are nil pointers are left out.",
  edits=[("import_export.go", "		vv := v.MapIndex(kk)\n		vv, fu, err", "		vv := v.MapIndex(kk)\n		if vv.Kind() == reflect.Ptr && vv.IsNil() && kk.Kind() == reflect.Uint8 {\n			continue\n		}\n		vv, fu, err")],
  demo=t('''	v, err := jsonvalue.Import(map[uint8]*int{1: nil})
	if err != nil || v.Len() != 1 {
		t.Fatal(v, err)
	}''')),
}
