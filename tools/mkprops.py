#!/usr/bin/env python3
"""Writes properties.jsonl. The text of the properties lives here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("C01", "Parsing never panics",
 "For every byte sequence, every parsing function returns a value or an error: it never panics, and never reads or writes outside its input. "
 "The same holds for reading a string value as a number or boolean, whatever the string is. Nesting is limited, so no input can exhaust the stack.",
 ["inputs"], "every byte sequence of every length, given to every parsing entry point and to every number getter through a string value",
 "The tests feed a few dozen documents; an index that goes wrong needs a particular byte at a particular distance from the end.",
 ["unmarshal.go", "jsonvalue.go", "get.go"],
 [("bounds checks before every byte access", "unmarshal.go: literals, numbers, escapes, multi-byte characters"), ("nesting limit", "unmarshal.go: array and object parsing"),
  ("number from string", "get.go: conversion of string values")], observe=["Unmarshal", "UnmarshalString", "UnmarshalNoCopy", "UnmarshalJSON", "UnmarshalBinary", "Int", "GetInt"])

prop("C02", "A parse failure anywhere fails the whole parse",
 "When any part of a JSON text fails to parse, at any nesting depth, the whole parse returns an error and no part of the failure is dropped. "
 "The literals true, false and null are accepted only when spelled exactly and in full, and nothing but blanks may follow the top-level value.",
 ["inputs"], "every byte sequence, with the faulty part at any depth and offset",
 "The tests place a fault in a handful of documents; each parse routine has a dozen exits which all must hand the error on.",
 ["unmarshal.go", "jsonvalue.go", "marshaler_unmarshaler.go"],
 [("error results checked after every sub-parse", "unmarshal.go: array, object and top-level parsing"), ("literal comparison", "unmarshal.go: true/false/null"), ("trailing data check", "unmarshal.go: top-level parsing")],
 observe=["Unmarshal", "UnmarshalString", "UnmarshalNoCopy"])

prop("C03", "Escape sequences in strings decode exactly",
 "An escape sequence in a parsed JSON string stands for exactly the character it denotes: each short escape, each four-digit hexadecimal escape and each surrogate pair. "
 "A bad hexadecimal digit, a lone or misordered surrogate, an unknown escape or a truncated sequence makes the parse fail. Characters outside escapes are kept unchanged.",
 ["inputs"], "every escape sequence (all hexadecimal digits, all surrogate pairs) and every truncation of one",
 "There are more than a million surrogate pairs and several spellings of each; the tests have a few of them.",
 ["unmarshal.go"], [("escape decoding", "unmarshal.go: escape and UTF-16 handling"), ("UTF-8 encoding of a decoded character", "unmarshal.go")], observe=["Unmarshal", "UnmarshalString"])

prop("C04", "Parsing neither changes nor keeps the caller's bytes",
 "Parsing a byte slice with any function but the no-copy ones leaves every byte of the slice unchanged. "
 "The parsed value shares no memory with the slice, so later changes of the slice do not show in the value.",
 ["inputs", "histories"], "every input slice, and every later change of it by the caller",
 "The parser decodes in place and keeps views of its buffer, so one missing copy is invisible until the caller reuses its buffer after a parse of the right kind of text.",
 ["jsonvalue.go", "marshaler_unmarshaler.go", "unmarshal.go"], [("private copy of the input", "jsonvalue.go: entry points"), ("delegation of the standard unmarshalers", "marshaler_unmarshaler.go")],
 observe=["Unmarshal", "UnmarshalString", "UnmarshalJSON", "UnmarshalBinary"])

prop("C05", "Marshaling emits one complete JSON value or an error",
 "A successful marshal returns exactly one complete JSON value: brackets and braces balance, members are separated by exactly one comma, and every key is quoted and followed by a colon. "
 "This holds for every value tree and every combination of options (null omission, indentation, every key ordering). If some part cannot be marshaled, an error is returned instead, however deep that part is.",
 ["inputs", "configurations"], "every value tree and every combination of marshal options",
 "The writer has four ways to order members and independent options for nulls and indentation; tests try a few pairs, never all with empty, single and omitted members at any depth.",
 ["marshal.go", "sort.go", "option.go"], [("comma bookkeeping", "marshal.go: object and array writing; sort.go"), ("error propagation from nested values", "marshal.go, sort.go")], observe=["Marshal", "MarshalString", "MustMarshal", "MarshalJSON"])

prop("C06", "Marshaled strings are valid literals that decode to the same text",
 "Every string value and every key, marshaled under any combination of the escaping options, is a valid JSON string literal which decodes back to the original characters. "
 "No control character, quote or backslash is emitted unescaped, and characters beyond the basic plane are escaped as correct surrogate pairs.",
 ["inputs", "configurations"], "every character (all code points) under every combination of the escaping options",
 "More than a million characters times eight option combinations; the tests check some dozens of them.",
 ["conv.go", "option.go", "marshal.go"], [("escaping table", "option.go: table built from the options"), ("escape writers", "conv.go")], observe=["Marshal", "MarshalString"])

prop("C07", "NaN and infinities are never written as numbers",
 "A value holding NaN or an infinity is never written as such: by default marshaling it is an error, and each documented option replaces it with null, with the given number or with the given string. "
 "The replacement of a negative infinity is the negated number, or its own string. A replacement number which is itself not finite is an error.",
 ["inputs", "configurations"], "every non-finite value, anywhere in a tree, under every setting of the options for NaN and infinities",
 "The handling differs in three near-identical routines with four modes each; tests cover the common modes only.",
 ["marshal.go", "option.go", "new.go"], [("non-finite number writers", "marshal.go"), ("finite check of the replacement", "marshal.go"), ("option setters", "option.go")], observe=["Marshal"])

prop("C08", "Reading a value never modifies it",
 "Getters, accessors, comparisons, iteration, containment tests, marshaling, exporting and importing leave the value they read, and everything below it, exactly as it was. "
 "Hence a value which nobody changes may be read by any number of goroutines. The case-insensitive lookups, which may build an index, are not included.",
 ["inputs", "schedules"], "every value, every argument of every reading operation, and every interleaving of readers",
 "A write hidden in a read shows only under a race between goroutines or in a later operation; tests run single reads.",
 ["jsonvalue.go", "get.go", "marshal.go", "compare.go", "iteration.go", "sort.go", "import_export.go", "beta/contain.go"],
 [("read paths without stores to the value", "get.go, jsonvalue.go, marshal.go, compare.go, iteration.go")], observe=["Get", "GetString", "Int", "String", "Marshal", "Equal", "RangeObjects", "Len"])

prop("C09", "Default marshal options may be changed while others marshal",
 "Setting or resetting the default marshal options is safe while other goroutines parse or marshal: package-level state which changes after start-up is only accessed atomically or under a lock. "
 "Marshaling and importing with options never alter the defaults, so they affect that one call only.",
 ["schedules", "histories"], "every interleaving of setting, resetting, marshaling and parsing, and every history of calls with options",
 "A data race or a leaked option shows only for particular interleavings or call sequences; the tests are sequential.",
 ["option.go", "jsonvalue_internal.go"], [("atomic publication of the defaults", "option.go"), ("atomic statistics", "jsonvalue_internal.go")], state=[("default options", "used when a call gives none", "jsonvalue_internal.go")],
 observe=["SetDefaultMarshalOptions", "ResetDefaultMarshalOptions", "Marshal"])

prop("C10", "No operation returns a nil value",
 "Every exported function or method which returns a value returns a non-nil one, also together with an error, so that calls may be chained without nil checks.",
 ["inputs"], "every exported function and method returning a value, with every argument, on success and on failure",
 "There are more than a hundred failing exits; tests look at the error of most of them, not at the value beside it.",
 ["jsonvalue.go", "get.go", "set.go", "insert_append_delete.go", "import_export.go", "new.go", "unmarshal.go"], [("empty value returned with each error", "all files with exported functions")], observe=["Get", "MustGet", "At", "Import", "New", "Unmarshal", "MustUnmarshal"])

prop("C11", "A failed modification changes nothing",
 "When setting, inserting, appending or deleting at any path returns an error, the target value and everything below it are exactly as before: no partial path is created and no element is moved, added or lost.",
 ["inputs"], "every target, every path of any length and every kind of path element, with the failure at any step",
 "The paths that fail after some steps succeeded are combinations of types and lengths; the tests check the error, rarely the target.",
 ["set.go", "insert_append_delete.go"], [("new containers are attached only after the rest of the path succeeded", "set.go"), ("validation before the change", "set.go, insert_append_delete.go")], observe=["Set().At", "Insert().Before", "Insert().After", "Append().InTheBeginning", "Append().InTheEnd", "Delete"])

prop("C12", "Array edits change exactly the addressed position",
 "Setting, inserting before or after, appending at either end and deleting in an array change exactly the addressed position and shift the others by at most one, keeping their order. "
 "A negative index counts from the end; an index out of range is an error, except that setting at the length appends.",
 ["inputs"], "every array length, every index (negative, in range, at the end, out of range) and every observed position",
 "Boundary combinations of length and index are many and every edit has its own index arithmetic; tests use arrays of a few elements.",
 ["set.go", "insert_append_delete.go", "get.go"], [("index resolution", "set.go"), ("element shifting", "insert_append_delete.go")], observe=["Get", "Len", "Set().At", "Insert().Before", "Insert().After", "Append().InTheBeginning", "Append().InTheEnd", "Delete"])

prop("C13", "Uninitialised values never enter a tree",
 "Setting, inserting or appending a nil or uninitialised value, or doing so on a nil or uninitialised target, returns an error; a nil interface stands for null. "
 "Thus every member of a tree built with the library is an initialised value.",
 ["inputs"], "every modifying operation, every kind of target and every path",
 "Each modification has its own entry checks, and a missing one shows only when the bad member is used later.",
 ["set.go", "insert_append_delete.go", "import_export.go"], [("checks of child and target", "set.go, insert_append_delete.go")], observe=["Set().At", "Insert().Before", "Insert().After", "Append().InTheBeginning", "Append().InTheEnd"])

prop("C14", "Case-insensitive lookup agrees with the object's current keys",
 "After any sequence of changes, a case-insensitive lookup finds a member exactly if the object has a key equal to the given one regardless of case, prefers the exact key, and returns that member's current value. "
 "A case-insensitive delete removes exactly one such member, and a case-sensitive operation never matches another spelling.",
 ["inputs", "histories"], "every key, every set of keys differing in case only, and every history of sets, deletes and lookups",
 "The lookup uses an index built lazily and updated by every later change; a missed update needs a particular history.",
 ["get.go", "jsonvalue.go", "insert_append_delete.go", "set.go"], [("lazily built index of folded keys", "get.go"), ("index maintenance", "jsonvalue.go, set.go, insert_append_delete.go")], state=[("folded key index", "keys of the object grouped by lower case", "jsonvalue.go")],
 observe=["Caseless().Get", "Caseless().Delete", "Get", "Delete"])

prop("C15", "Iteration by set sequence follows the order of the last set",
 "Members of an object are iterated and marshaled by set sequence in the order in which their keys were last set or parsed: setting a key, new or existing, always makes it the last. "
 "Copies keep the order of their originals, and continue it.",
 ["inputs", "histories"], "every object and every history of parsing, setting, overwriting, deleting and copying",
 "The order is kept by a counter per object that must move on every change and be carried along by copies; tests check a few histories.",
 ["set.go", "jsonvalue.go", "iteration.go", "sort.go"], [("sequence counter", "set.go"), ("ordering comparisons", "iteration.go, sort.go"), ("copy of the counter", "jsonvalue.go")], state=[("sequence number", "position of a key in set order", "jsonvalue.go")],
 observe=["RangeObjectsBySetSequence", "Marshal with OptSetSequence"])

prop("C16", "Typed variants do what the general operation does",
 "Every typed variant of setting, inserting and appending behaves as the general operation given the corresponding new value, and every variant without an error result has the same effect as the one with it. "
 "The stored member has the type and the value that were given.",
 ["inputs"], "every typed variant with every value of its parameter type, at every position",
 "There are some sixty variants, and each must hand on its own argument at full width; tests try each with one value.",
 ["set.go", "set_must.go", "insert_append_delete.go", "insert_append_delete_must.go"], [("delegation to the general operation", "set.go, set_must.go, insert_append_delete.go, insert_append_delete_must.go")],
 observe=["SetInt64", "MustSetString", "InsertBool", "AppendFloat64", "MustAppendNull"])

prop("C17", "Typed getters return what the accessor returns, or the right error",
 "A typed getter succeeds exactly if the addressed member exists and has the asked type; then it returns what the member's own accessor returns. "
 "A string member read as a number gives the number it spells and an error that tells so, and a member of any other type gives the zero value and an error.",
 ["inputs"], "every typed getter, every member type and every content",
 "Sixteen getters times eight member types; each getter has its own conversion, and tests check a few of the pairs.",
 ["get.go", "jsonvalue.go"], [("type checks in the getters", "get.go"), ("conversions of strings", "get.go")], observe=["GetInt", "GetUint64", "GetFloat64", "GetBool", "GetString", "GetNull", "GetObject", "GetArray"])

prop("C18", "Comparisons are consistent, equality is structural",
 "For two finite numbers exactly one of less, equal and greater holds, and the operators with equality agree with them; a comparison with anything else than numbers is false. "
 "Two values are equal exactly if they have the same type and equal contents: the same keys with equal members, or equal elements in the same order.",
 ["inputs"], "every pair of values",
 "Each comparison is written separately, over pairs of types and of spellings of numbers; tests compare some chosen pairs.",
 ["compare.go"], [("number comparison", "compare.go"), ("structural equality", "compare.go")], observe=["GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual", "Equal"])

prop("C19", "Number constructors and accessors agree",
 "A value made from an integer of any width is an integer number whose accessors return that integer converted as Go converts it, and whose sign tests tell its sign. "
 "A parsed integer has the same accessors as one made from that integer.",
 ["inputs"], "every integer of every width, in every constructor and accessor",
 "Widths and signs meet at 2^31, 2^63 and 2^64 in eight constructors and twelve accessors; tests use small integers.",
 ["new.go", "jsonvalue.go", "unmarshal.go"], [("all representations filled in by each constructor", "new.go, unmarshal.go")], observe=["NewInt64", "NewUint64", "NewInt32", "Int", "Uint64", "IsNegative", "GreaterThanInt64Max"])

prop("C20", "The last key-ordering option wins and options are independent",
 "Of several options that determine the order of keys the last one given takes effect, and it cancels the earlier ones completely. "
 "Every other option changes only its own setting, whatever options surround it.",
 ["configurations"], "every sequence of options, on top of every default",
 "Options are merged into one record in sequence; tests give one or two options at a time.",
 ["option.go"], [("merging of each option", "option.go")], observe=["Marshal with several options", "SetDefaultMarshalOptions"])

prop("C21", "Importing a value makes an independent faithful copy",
 "Importing an existing value yields a copy with the same type and equal contents at every depth, which shares no modifiable part with its original. "
 "Hence later changes of the one never show in the other.",
 ["inputs", "histories"], "every value tree and every later change of the original or the copy",
 "A part shared by accident shows only when one side is changed afterwards and the other is looked at.",
 ["jsonvalue.go", "import_export.go"], [("deep copy of every type", "jsonvalue.go"), ("recognition of values during import", "import_export.go")], observe=["Import", "New", "Set", "Append"])

prop("C22", "Iteration visits every member exactly once and stops when told to",
 "Iterating an object or array calls the callback once for every member with its own key or index, arrays in ascending order, and stops right after the callback returns false. "
 "Iterating a value of another type, or with a nil callback, calls nothing. The map and slice forms hold exactly the members.",
 ["inputs"], "every object or array and every point at which the callback stops",
 "Tests iterate small containers to the end or stop at one place.",
 ["iteration.go"], [("callback loops", "iteration.go")], observe=["RangeObjects", "RangeObjectsBySetSequence", "RangeArray", "ForRangeObj", "ForRangeArr"])

prop("C23", "Sorting keeps every key with its own value",
 "Marshaling in a chosen key order writes every member of the object exactly once, each key with its own value, whatever the comparison answers. "
 "Sorting an array only permutes its elements, and the comparison is given the two elements in question.",
 ["inputs", "configurations"], "every object or array, every comparison function and every key sequence",
 "The sorters move keys and values in parallel; a slip shows only for orders that need a particular exchange.",
 ["sort.go", "marshal.go"], [("parallel exchange of keys and values", "sort.go"), ("comparison by key sequence", "sort.go")], observe=["SortArray", "Marshal with OptKeySequence", "Marshal with OptKeySequenceWithLessFunc"])

prop("C24", "Import never drops a failure",
 "When any part of the imported Go value cannot be converted, at any depth, the import returns an error; no failing part is silently left out. "
 "Without an error every element of a slice and every entry of a map is present in the result.",
 ["inputs"], "every Go value, with the failing part at any depth",
 "The conversions are chosen by reflection at run time and each has its own error exits; tests have few failing inputs.",
 ["import_export.go"], [("error propagation in every conversion", "import_export.go")], observe=["Import", "New", "Set", "Append", "Insert"])

prop("C25", "Unsafe conversions never reach beyond their object",
 "No conversion between strings and byte slices reads or writes memory outside the header it converts, or makes a pointer out of an integer.",
 ["inputs"], "every conversion of memory layouts in the library, on every path",
 "Such an access mostly lands in harmless memory of the stack, so that tests pass.",
 ["internal/unsafe/unsafe.go"], [("header conversions", "internal/unsafe/unsafe.go")], observe=["Marshal", "Unmarshal", "String"])

prop("C26", "Marshaling and parsing are inverse",
 "Parsing the text of a marshaled value gives a value equal to it, and marshaling a parsed text gives an equivalent text.",
 ["inputs"], "every value and every text", "It is an equality of run-time values of unbounded size.",
 ["marshal.go", "unmarshal.go"], [("writer and reader", "marshal.go, unmarshal.go")])

prop("C27", "Exactly the texts of RFC 8259 are accepted",
 "Every valid JSON text is accepted and every other byte sequence is rejected.",
 ["inputs"], "every byte sequence", "The grammar has unbounded texts; tests have examples.",
 ["unmarshal.go"], [("parser", "unmarshal.go")])

prop("C28", "Decimal comparison and number parsing are numerically accurate",
 "A parsed number has the float value nearest to its text, and comparisons of numbers follow their exact decimal values.",
 ["inputs"], "every number text", "Numerical results over all decimal texts.",
 ["unmarshal.go", "compare.go"], [("conversions by strconv and decimal", "unmarshal.go, compare.go")])

prop("C29", "Import and export agree with encoding/json",
 "Importing a Go value gives the JSON that encoding/json would produce for it, and exporting fills a Go value as encoding/json would.",
 ["inputs", "programs"], "every Go type and value", "Types are defined by users; tests have some.",
 ["import_export.go"], [("struct tags and conversions", "import_export.go")])

prop("C30", "Containment means subset for objects and sub-sequence for arrays",
 "A value contains another exactly if, at the given path, every member of an object is contained in the same member, or the elements of an array occur consecutively.",
 ["inputs"], "every pair of values and every path", "Quantifies over run-time contents of two trees.",
 ["beta/contain.go"], [("recursive comparison", "beta/contain.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
