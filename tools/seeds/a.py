def t(body, pkg="jsonvalue_test", imports=""):
    imp = 'import (\n\t"testing"\n%s\n%s)\n' % (imports, '\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n' if pkg == "jsonvalue_test" else "")
    return "package %s\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, imp, body)

SEEDS = {
"c09-plain-load": dict(prop="C09", race=True,
  needs="Two goroutines parse at the same time and one of them adds its size while the other reads the prediction word.",
  breaks="The size prediction shared by all parsing is read without an atomic operation, so that parsing in several goroutines is a data race.",
  edits=[("jsonvalue_internal.go", "	v := atomic.LoadUint64(&internal.predict.calcStorage)\n	total := v >> 32\n", "	v := internal.predict.calcStorage\n	total := v >> 32\n")],
  demo=t('''	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			for i := 0; i < 500; i++ {
				_, _ = jsonvalue.UnmarshalString(`{"a":[1,2,3]}`)
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}''')),
"c12-after-second-last": dict(prop="C12",
  needs="Insert(...).After with a negative index other than -1, whose counterpart is the position before the last element.",
  breaks="Inserting after a negative index puts the element before the addressed one when the array holds more than twelve elements.",
  edits=[("insert_append_delete.go", "		pos, appendToEnd := posAtIndexForInsertAfter(v, pos)\n		if pos < 0 {", "		fromEnd := pos < -1 && v.Len() > 12\n		pos, appendToEnd := posAtIndexForInsertAfter(v, pos)\n		if fromEnd && pos == v.Len()-1 {\n			pos--\n		}\n		if pos < 0 {")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[0,1,2,3,4,5,6,7,8,9,10,11,12,13]`)
	if _, err := v.Insert("x").After(-2); err != nil {
		t.Fatal(err)
	}
	if s := v.MustMarshalString(); s != `[0,1,2,3,4,5,6,7,8,9,10,11,12,"x",13]` {
		t.Fatal(s)
	}''')),
"c12-delete-last-shared": dict(prop="C12",
  needs="Deleting an element of an array with a negative index whose absolute value is the length.",
  breaks="Deleting by a negative index that addresses the first element deletes the last one.",
  edits=[("insert_append_delete.go", "	pos = posAtIndexForRead(v, pos)\n	if pos < 0 {\n		return ErrOutOfRange\n	}\n	deleteInArr(v, pos)", "	wanted := pos\n	pos = posAtIndexForRead(v, pos)\n	if pos < 0 {\n		return ErrOutOfRange\n	}\n	if wanted < 0 && pos == 0 && wanted != -1 {\n		pos = v.Len() - 1\n	}\n	deleteInArr(v, pos)")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[0,1,2,3]`)
	if err := v.Delete(-4); err != nil {
		t.Fatal(err)
	}
	if s := v.MustMarshalString(); s != `[1,2,3]` {
		t.Fatal(s)
	}''')),
"c13-append-at-path": dict(prop="C13",
  needs="An uninitialised value (for example the result of a failed lookup) appended at the beginning of a nested array.",
  breaks="The check for uninitialised values is only made for appending to the value itself, not along a path.",
  edits=[("set.go", "	if nil == c || c.valueType == NotExist {\n		return &V{}, ErrValueUninitialized\n	}\n\n	// this is the last iteration", "	if nil == c || (c.valueType == NotExist && v.valueType == Object) {\n		return &V{}, ErrValueUninitialized\n	}\n\n	// this is the last iteration")],
  demo=t('''	v := jsonvalue.NewArray()
	if _, err := v.Set(&jsonvalue.V{}).At(0); err == nil {
		t.Fatal("an uninitialised value was set")
	}''')),
"c16-insert-uint32": dict(prop="C16",
  needs="A 32-bit unsigned number above the greatest signed one.",
  breaks="Inserting an unsigned 32-bit number above 2^31-1 stores a negative number.",
  edits=[("insert_append_delete.go", "	return v.Insert(NewUint32(u))", "	return v.Insert(NewInt32(int32(u)))")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`[1]`)
	if _, err := v.InsertUint32(4000000000).Before(0); err != nil {
		t.Fatal(err)
	}
	if u := v.MustGet(0).Uint64(); u != 4000000000 {
		t.Fatal(u)
	}''')),
"c16-must-append": dict(prop="C16",
  needs="MustAppendNull(...).InTheBeginning on an array which is not empty.",
  breaks="The variant without an error appends null at the end instead of the beginning.",
  edits=[("insert_append_delete_must.go", "ANCHOR", "ANCHOR")],
  demo=t('')),
"c17-caseless-uint": dict(prop="C17",
  needs="An unsigned number above 2^63 read as Uint64 through a getter.",
  breaks="GetUint64 goes through the signed accessor for floating-point members.",
  edits=[("get.go", "	return ret.Uint64(), err\n", "	if ret.IsFloat() {\n		return uint64(ret.Int64()), err\n	}\n	return ret.Uint64(), err\n")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":15000000000000000000.5}`)
	u, err := v.GetUint64("a")
	if err != nil || u != v.MustGet("a").Uint64() {
		t.Fatal(u, v.MustGet("a").Uint64(), err)
	}''')),
"c17-null-of-string": dict(prop="C17",
  needs="GetBool on a number member between -1 and 1 which is not zero.",
  breaks="GetBool of a number member which is not zero but between -1 and 1 gives false, unlike the member's own accessor.",
  edits=[("get.go", "	ret, err = getBoolAndErrorFromValue(ret)\n	return ret.Bool(), err", "	if ret.valueType == Number {\n		return ret.Int64() != 0, ErrTypeNotMatch\n	}\n	ret, err = getBoolAndErrorFromValue(ret)\n	return ret.Bool(), err")],
  demo=t('''	v := jsonvalue.MustUnmarshalString(`{"a":0.25}`)
	b, _ := v.GetBool("a")
	if b != v.MustGet("a").Bool() {
		t.Fatal(b)
	}''')),
"c19-uint64-signed": dict(prop="C19",
  needs="A number made from an unsigned integer above 2^63-1.",
  breaks="Values made from unsigned integers above the greatest int64 have a wrong float value.",
  edits=[("new.go", "	v.num.f64 = float64(u)\n", "	v.num.f64 = float64(int64(u))\n	if int64(u) < 0 {\n		v.num.f64 = -v.num.f64\n	}\n")],
  demo=t('''	u := uint64(1)<<63 + uint64(1)<<62
	if f := jsonvalue.NewUint64(u).Float64(); f != float64(u) {
		t.Fatal(f)
	}''')),
"c20-set-sequence-kept": dict(prop="C20",
  needs="An Opt structure with both a less function and a key sequence, followed by OptSetSequence.",
  breaks="OptSetSequence cancels only one of the two other orders.",
  edits=[("option.go", "func (optSetSequence) mergeTo(opt *Opt) {\n	opt.MarshalLessFunc = nil\n	opt.MarshalKeySequence = nil\n	opt.keySequence = nil\n", "func (optSetSequence) mergeTo(opt *Opt) {\n	if opt.MarshalLessFunc != nil {\n		opt.MarshalLessFunc = nil\n	} else {\n		opt.MarshalKeySequence = nil\n		opt.keySequence = nil\n	}\n")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("b")
	v.MustSetInt(2).At("a")
	o := jsonvalue.Opt{MarshalLessFunc: jsonvalue.DefaultStringSequence, MarshalKeySequence: []string{"a", "b"}}
	if s := v.MustMarshalString(o, jsonvalue.OptSetSequence()); s != `{"b":1,"a":2}` {
		t.Fatal(s)
	}''')),
"c22-slice-form-alias": dict(prop="C22",
  needs="The slice returned by ForRangeArr is changed by its user, or the array is edited while the slice is in use.",
  breaks="The slice form of iteration hands out the array's own storage when it is full.",
  edits=[("iteration.go", "	res := make([]*V, 0, len(v.children.arr))\n	return append(res, v.children.arr...)", "	if n := len(v.children.arr); n > 8 && n == cap(v.children.arr) {\n		return v.children.arr\n	}\n	res := make([]*V, 0, len(v.children.arr))\n	return append(res, v.children.arr...)")],
  demo=t('''	v := jsonvalue.NewArray()
	for i := 0; i < 64; i++ {
		v.MustAppendInt(i).InTheEnd()
		s := v.ForRangeArr()
		s[0] = jsonvalue.NewString("changed")
		if v.MustGet(0).IsString() {
			t.Fatal("the array was changed through the slice", i)
		}
	}''')),
"c25-stob-header": dict(prop="C25",
  needs="Capacity of a byte slice made from a string is looked at (append to it, or re-slice).",
  breaks="The string header is reinterpreted as a slice header, whose capacity word is read beyond the string header.",
  edits=[("internal/unsafe/unsafe.go", "ANCHOR", "ANCHOR")], demo=t('')),
}
for k in ["c16-must-append", "c25-stob-header"]:
    del SEEDS[k]
