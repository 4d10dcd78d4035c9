def t(body, pkg="jsonvalue_test", imports=""):
    imp = 'import (\n\t"testing"\n%s\n%s)\n' % (imports, '\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n' if pkg == "jsonvalue_test" else "")
    return "package %s\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, imp, body)

SEEDS = {
"c04-large-input-shared": dict(prop="C04",
  needs="An input of at least 64 KiB which its owner changes afterwards.",
  breaks="Large inputs are not copied: changing the input changes the values parsed from it.",
  edits=[("jsonvalue.go", "	trueB := make([]byte, len(b))\n	copy(trueB, b)\n	it := iter(trueB)\n", "	trueB := b\n	if le < 1<<16 {\n		trueB = make([]byte, le)\n		copy(trueB, b)\n	}\n	it := iter(trueB)\n")],
  demo=t('''	b := []byte(`{"key":"value` + strings.Repeat("x", 1<<16) + `"}`)
	v := jsonvalue.MustUnmarshal(b)
	for i := range b {
		b[i] = 'z'
	}
	if s, err := v.GetString("key"); err != nil || s[:5] != "value" {
		t.Fatal(err)
	}''', imports='\t"strings"\n')),
"c04-binary-nocopy": dict(prop="C04",
  needs="UnmarshalBinary, and a change of its input afterwards.",
  breaks="UnmarshalBinary keeps the caller's bytes in the values.",
  edits=[("marshaler_unmarshaler.go", "func (v *V) UnmarshalBinary(b []byte) error {\n	res, err := Unmarshal(b)", "func (v *V) UnmarshalBinary(b []byte) error {\n	res, err := UnmarshalNoCopy(b)")],
  demo=t('''	b := []byte(`{"key":"value"}`)
	v := &jsonvalue.V{}
	if err := v.UnmarshalBinary(b); err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 'z'
	}
	if s, err := v.GetString("key"); err != nil || s != "value" {
		t.Fatal(s, err)
	}''')),
"c04-escape-in-place": dict(prop="C04",
  needs="Importing a []byte-like raw message of a type which hands out its own bytes.",
  breaks="Importing a json.Marshaler decodes the text in the bytes which the marshaler returned, its own ones perhaps.",
  edits=[("import_export.go", "	res, err := Unmarshal(b)\n	if err != nil {\n		return nil, fmt.Errorf(\"illegal JSON data generated", "	res, err := UnmarshalNoCopy(b)\n	if err != nil {\n		return nil, fmt.Errorf(\"illegal JSON data generated")],
  demo=t('''	raw := json.RawMessage(`{"a\\u0062c":"\\u0041"}`)
	before := string(raw)
	if _, err := jsonvalue.Import(raw); err != nil {
		t.Fatal(err)
	}
	if string(raw) != before {
		t.Fatal(string(raw))
	}''', imports='\t"encoding/json"\n')),
"c06-del": dict(prop="C06",
  needs="A vertical tab in a text.",
  breaks="A vertical tab is written as it is.",
  edits=[("option.go", "	o.asciiCharEscapingFunc['\\v'] = escAsciiControlChar\n", "")],
  demo=t('''	s := jsonvalue.NewString("a\\vb").MustMarshalString()
	var r string
	if err := json.Unmarshal([]byte(s), &r); err != nil || r != "a\\vb" {
		t.Fatal(s, err)
	}''', imports='\t"encoding/json"\n')),
"c06-surrogate-mask": dict(prop="C06",
  needs="A character of planes 9 to 16 in a text which is not marshaled as UTF-8.",
  breaks="The high surrogate of a character from U+90000 on is wrong.",
  edits=[("conv.go", "	hi := (r & 0xFFC00) >> 10", "	hi := (r & 0x7FC00) >> 10")],
  demo=t('''	want := "a" + string(rune(0x10FFFD)) + "b"
	s := jsonvalue.NewString(want).MustMarshalString()
	var r string
	if err := json.Unmarshal([]byte(s), &r); err != nil || r != want {
		t.Fatal(s, err)
	}''', imports='\t"encoding/json"\n')),
"c06-slash-keeps-backslash": dict(prop="C06",
  needs="A backslash in a text, marshaled as UTF-8 with slashes and HTML characters left as they are.",
  breaks="With all three options given, a backslash is not escaped.",
  edits=[("option.go", "		o.asciiCharEscapingFunc['&'] = escapeNothing\n	}\n", "		o.asciiCharEscapingFunc['&'] = escapeNothing\n		if o.escProperties.has(escapeIgnoreSlash) && o.escProperties.has(escapeUTF8) {\n			iterate('[', ']', escapeNothing)\n		}\n	}\n")],
  demo=t('''	want := "a" + `\\\\` + "b"
	s := jsonvalue.NewString(want).MustMarshalString(jsonvalue.OptUTF8(), jsonvalue.OptEscapeSlash(false), jsonvalue.OptEscapeHTML(false))
	var r string
	if err := json.Unmarshal([]byte(s), &r); err != nil || r != want {
		t.Fatal(s, err)
	}''', imports='\t"encoding/json"\n')),
"c08-get-drops-nil": dict(prop="C08",
  needs="Reading an element by a negative index, and looking at the array afterwards.",
  breaks="Looking at an array's last element from the end gives its spare capacity back.",
  edits=[("set.go", "func posAtIndexForRead(v *V, pos int) int {\n	le := len(v.children.arr)\n	if le == 0 {\n		return -1\n	}\n\n	if pos < 0 {\n		pos += le\n		if pos < 0 {\n			return -1\n		}\n", "func posAtIndexForRead(v *V, pos int) int {\n	le := len(v.children.arr)\n	if le == 0 {\n		return -1\n	}\n\n	if pos < 0 {\n		pos += le\n		if pos < 0 {\n			return -1\n		}\n		if cap(v.children.arr) > 4*le {\n			v.children.arr = append(make([]*V, 0, le), v.children.arr...)\n		}\n")],
  demo=t('''	v := NewArray()
	for i := 0; i < 64; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	for i := 0; i < 60; i++ {
		v.MustDelete(0)
	}
	v.children.arr = append(make([]*V, 0, 64), v.children.arr...)
	p := &v.children.arr[0]
	v.MustGet(-1)
	if p != &v.children.arr[0] {
		t.Fatal("a reading operation stores into the array")
	}''', pkg="jsonvalue")),
"c08-sequence-renumbered": dict(prop="C08",
  needs="Ranging by set sequence over an object from which many members have been deleted.",
  breaks="Iterating in set order renumbers the members when the numbers have become sparse.",
  edits=[("iteration.go", "	for _, kv := range kvs {\n		ok := callback(kv.k, kv.v)", "	if n := len(kvs); n > 0 && kvs[n-1].id > uint32(8*n) {\n		for i, kv := range kvs {\n			v.children.object[kv.k] = childWithProperty{id: uint32(i + 1), v: kv.v}\n		}\n		v.children.incrID = uint32(n)\n	}\n	for _, kv := range kvs {\n		ok := callback(kv.k, kv.v)")],
  demo=t('''	v := NewObject()
	for i := 0; i < 40; i++ {
		v.MustSetInt(i).At(fmt.Sprint(i))
	}
	for i := 0; i < 38; i++ {
		v.MustDelete(fmt.Sprint(i))
	}
	id := v.children.incrID
	v.RangeObjectsBySetSequence(func(string, *V) bool { return true })
	if v.children.incrID != id {
		t.Fatal("a reading operation stores into the object")
	}''', pkg="jsonvalue", imports='\t"fmt"\n')),
"c21-scalars-shared": dict(prop="C21",
  needs="Importing an array which ends with a null, and changing the imported value.",
  breaks="A copied array which ends with a null shares its elements' storage with the original.",
  edits=[("jsonvalue.go", "	if len(c.arr) > 0 {\n		for _, v := range c.arr {", "	if le := len(c.arr); le > 0 {\n		if le > 1 && c.arr[le-1].IsNull() {\n			res.arr = c.arr[:le:le]\n			return res\n		}\n		for _, v := range c.arr {")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[{"a":1},null]`)
	w, err := jsonvalue.Import(v)
	if err != nil {
		t.Fatal(err)
	}
	w.MustSetInt(2).At(0, "a")
	if i, _ := v.GetInt(0, "a"); i != 1 {
		t.Fatal(i)
	}''')),
"c21-null-member-shared": dict(prop="C21",
  needs="Importing an object with an empty object as a member, and setting something in that of the imported value.",
  breaks="An empty object is shared with the copy of the object it is in.",
  edits=[("jsonvalue.go", "			res.object[key] = childWithProperty{\n				id: item.id,\n				v:  item.v.deepCopy(),\n			}", "			if item.v.valueType == Object && len(item.v.children.object) == 0 {\n				res.object[key] = item // nothing to be copied\n				continue\n			}\n			res.object[key] = childWithProperty{\n				id: item.id,\n				v:  item.v.deepCopy(),\n			}")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":{}}`)
	w, err := jsonvalue.Import(v)
	if err != nil {
		t.Fatal(err)
	}
	w.MustSetInt(2).At("a", "b")
	if v.MustGet("a").Len() != 0 {
		t.Fatal(v)
	}''')),
}
