def t(body, pkg="jsonvalue_test", imports=""):
    imp = 'import (\n\t"testing"\n%s\n%s)\n' % (imports, '\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n' if pkg == "jsonvalue_test" else "")
    return "package %s\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, imp, body)

SEEDS = {
"c14-spelling-lost-on-delete": dict(prop="C14",
  needs="An object with two spellings of a key and an index built before, of which one is deleted and the other looked up in a third spelling.",
  breaks="After one of two spellings of a key was deleted, the other one is no longer found regardless of case.",
  edits=[("jsonvalue.go", "	if len(keys) == 0 {\n		delete(v", "	if len(keys) <= 1 {\n		delete(v")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("key")
	v.MustSetInt(2).At("Key")
	v.Caseless().MustGet("KEY")
	v.MustDelete("key")
	if i, err := v.Caseless().GetInt("KEY"); err != nil || i != 2 {
		t.Fatal(i, err)
	}''')),
"c14-wrong-spelling-dropped": dict(prop="C14",
  needs="An object with a key in lower case and in another spelling, an index built before, a deletion of the other spelling, then a lookup in a third spelling.",
  breaks="Deleting one spelling of a key makes another member unreachable regardless of case.",
  edits=[("jsonvalue.go", "	delete(keys, k)\n", "	delete(keys, k)\n	delete(keys, lowerK)\n")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("key")
	v.MustSetInt(2).At("Key")
	v.Caseless().MustGet("KEY")
	v.MustDelete("Key")
	if i, err := v.Caseless().GetInt("KEY"); err != nil || i != 1 {
		t.Fatal(i, err)
	}''')),
"c14-second-spelling-not-indexed": dict(prop="C14",
  needs="A second spelling of a key set after the index was built, the first one deleted, then a lookup in a third spelling.",
  breaks="The second spelling of a key is missing from the index of lower case keys.",
  edits=[("jsonvalue.go", "	keys[k] = struct{}{}\n", "	if len(keys) == 0 {\n		keys[k] = struct{}{}\n	}\n")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("key")
	v.Caseless().MustGet("KEY")
	v.MustSetInt(2).At("Key")
	v.MustDelete("key")
	if i, err := v.Caseless().GetInt("KEY"); err != nil || i != 2 {
		t.Fatal(i, err)
	}''')),
"c14-delete-without-index": dict(prop="C14",
  needs="A case-insensitive delete on an object on which no case-insensitive operation was done before.",
  breaks="The first case-insensitive delete of another spelling finds nothing unless a lookup came before.",
  edits=[("insert_append_delete.go", "	initCaselessStorage(v)\n\n	lowerKey", "	if len(v.children.object) > 8 {\n		initCaselessStorage(v) // not worth it for small objects\n	}\n\n	lowerKey")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("key")
	if err := v.Caseless().Delete("KEY"); err != nil || v.Len() != 0 {
		t.Fatal(err, v)
	}''')),
"c14-deletes-every-spelling": dict(prop="C14",
  needs="An object with two spellings of a key and a case-insensitive delete with a third spelling.",
  breaks="A case-insensitive delete removes every spelling of the key instead of one.",
  edits=[("insert_append_delete.go", "			delCaselessKey(v, actualKey)\n			return true\n		}\n	}\n\n	return false", "			delCaselessKey(v, actualKey)\n			defer func() { exist = true }()\n		}\n	}\n\n	return exist")],
  demo=t('''	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("key")
	v.MustSetInt(2).At("Key")
	if err := v.Caseless().Delete("KEY"); err != nil || v.Len() != 1 {
		t.Fatal(err, v)
	}''')),
}
