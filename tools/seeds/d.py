def t(body, pkg="jsonvalue_test", imports=""):
    imp = 'import (\n\t"testing"\n%s\n%s)\n' % (imports, '\n\tjsonvalue "github.com/Andrew-M-C/go.jsonvalue"\n' if pkg == "jsonvalue_test" else "")
    return "package %s\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, imp, body)

SEEDS = {
"c01-rune-cut-off": dict(prop="C01",
  needs="A text whose string ends in the first two bytes of a three byte character, after an escape sequence earlier in the string, in a buffer without spare capacity (UnmarshalNoCopy).",
  breaks="Parsing such a text panics instead of returning an error.",
  edits=[("unmarshal.go", "		if end-*i < le {\n", "		if end-*i+1 < le {\n")],
  demo=t('''	for _, s := range []string{"\\"\\xe4\\xb8", "\\"a\\\\n\\xe4\\xb8", "\\"a\\\\n\\xc3"} {
		b := []byte(s)
		if _, err := jsonvalue.UnmarshalNoCopy(b[:len(b):len(b)]); err == nil {
			t.Fatal(s)
		}
	}''')),
"c01-pair-cut-off": dict(prop="C01",
  needs="A text which ends within the second half of a surrogate pair, exactly one character too early.",
  breaks="Parsing such a text panics instead of returning an error.",
  edits=[("unmarshal.go", "	if end-*i <= 11 {", "	if end-*i <= 9 {")],
  demo=t('''	const s = "\\"\\\\uD83D\\\\uDE0A"
	for i := 1; i <= len(s); i++ {
		if _, err := jsonvalue.UnmarshalString(s[:i]); err == nil {
			t.Fatal(s[:i])
		}
	}''')),
}
