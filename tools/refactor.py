#!/usr/bin/env python3
"""refactor.py [GROUP...]: applies groups of behaviour-preserving edits to copies of /repo (in /tmp/refactor), runs the
repository's tests and every claimed check on each copy, and prints what is not quiet. PROPS=C12,C13 restricts the checks."""
import os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
GROUPS = {}
G = lambda name, *edits: GROUPS.setdefault(name, []).extend(edits)

G("modify",
 ("set.go", "func setToObjectChildren(v *V, key string, child *V) {\n\tv.children.incrID++\n\tv.children.object[key] = childWithProperty{\n\t\tid: v.children.incrID,\n\t\tv:  child,\n\t}\n\taddCaselessKey(v, key)\n}",
  "func setToObjectChildren(v *V, key string, child *V) {\n\tprop := childWithProperty{v: child}\n\tprop.id = nextSetID(v)\n\taddCaselessKey(v, key)\n\tc := &v.children\n\tc.object[key] = prop\n}\n\nfunc nextSetID(v *V) uint32 {\n\tv.children.incrID = v.children.incrID + 1\n\treturn v.children.incrID\n}"),
 ("set.go", "\tv := s.v\n\tc := s.c\n\tif nil == v || v.valueType == NotExist {\n\t\treturn &V{}, ErrValueUninitialized\n\t}\n\tif nil == c || c.valueType == NotExist {\n\t\treturn &V{}, ErrValueUninitialized\n\t}",
  "\tv := s.v\n\tfor _, one := range [2]*V{v, s.c} {\n\t\tif one == nil || one.valueType == NotExist {\n\t\t\treturn &V{}, ErrValueUninitialized\n\t\t}\n\t}"),
 ("set.go", "\tif v.valueType == Object {\n\t\treturn s.atObject(firstParam, otherParams)\n\t}\n\n\t// array type\n\tif v.valueType == Array {\n\t\treturn s.atArray(firstParam, otherParams)\n\t}\n\n\t// illegal type\n\treturn &V{}, fmt.Errorf",
  "\tswitch v.valueType {\n\tcase Array:\n\t\treturn s.atArray(firstParam, otherParams)\n\tcase Object:\n\t\treturn s.atObject(firstParam, otherParams)\n\t}\n\n\t// illegal type\n\treturn &V{}, fmt.Errorf"),
 ("set.go", "\tif appendToEnd {\n\t\tv.children.arr = append(v.children.arr, child)\n\t} else {\n\t\tv.children.arr[pos] = child\n\t}\n\treturn nil", "\tif !appendToEnd {\n\t\tv.children.arr[pos] = child\n\t\treturn nil\n\t}\n\tappendToArr(v, child)\n\treturn nil"),
 ("set.go", "func posAtIndexForRead(v *V, pos int) int {\n\tle := len(v.children.arr)\n\tif le == 0 {\n\t\treturn -1\n\t}\n\n\tif pos < 0 {\n\t\tpos += le\n\t\tif pos < 0 {\n\t\t\treturn -1\n\t\t}\n\t\treturn pos\n\t}\n\n\tif pos >= le {\n\t\treturn -1\n\t}\n\n\treturn pos\n}",
  "func posAtIndexForRead(v *V, pos int) int {\n\tle := len(v.children.arr)\n\tif pos < 0 {\n\t\tpos = le + pos\n\t}\n\tif pos < 0 || le <= pos {\n\t\tpos = -1\n\t}\n\treturn pos\n}"),
 ("insert_append_delete.go", "\tv.children.arr = append(v.children.arr, nil)\n\tcopy(v.children.arr[pos+1:], v.children.arr[pos:])\n\tv.children.arr[pos] = child\n",
  "\tarr := append(v.children.arr, child)\n\tfor i := len(arr) - 1; i > pos; i-- {\n\t\tarr[i] = arr[i-1]\n\t}\n\tarr[pos] = child\n\tv.children.arr = arr\n"),
 ("insert_append_delete.go", "\tle := len(v.children.arr)\n\tv.children.arr[pos] = nil\n\tcopy(v.children.arr[pos:], v.children.arr[pos+1:])\n\tv.children.arr = v.children.arr[:le-1]",
  "\tarr := v.children.arr\n\tlast := len(arr) - 1\n\tcopy(arr[pos:], arr[pos+1:])\n\tarr[last] = nil\n\tv.children.arr = arr[:last]"),
 ("insert_append_delete.go", "\tfor actualKey := range keys {\n\t\t_, exist = v.children.object[actualKey]\n\t\tif exist {\n\t\t\tdelete(v.children.object, actualKey)\n\t\t\tdelCaselessKey(v, actualKey)\n\t\t\treturn true\n\t\t}\n\t}\n\n\treturn false",
  "\tfor actualKey := range keys {\n\t\tif _, exist = v.children.object[actualKey]; !exist {\n\t\t\tcontinue\n\t\t}\n\t\tdelCaselessKey(v, actualKey)\n\t\tdelete(v.children.object, actualKey)\n\t\treturn true\n\t}\n\n\treturn false"),
)
G("caseless",
 ("get.go", "\tlowerCaseKey := strings.ToLower(key)\n\tkeys, exist := v.children.lowerCaseKeys[lowerCaseKey]\n\tif !exist {\n\t\treturn &V{}, false\n\t}\n\n\tfor actualKey := range keys {\n\t\tchildProperty, exist = v.children.object[actualKey]\n\t\tif exist {\n\t\t\treturn childProperty.v, true\n\t\t}\n\t}\n\n\treturn &V{}, false",
  "\tactualKey, exist := anyActualKey(v, key)\n\tif !exist {\n\t\treturn &V{}, false\n\t}\n\treturn v.children.object[actualKey].v, true"),
 ("get.go", "func getFromObjectChildren(", "// anyActualKey finds a key of the object which equals the given one regardless of case.\nfunc anyActualKey(v *V, key string) (string, bool) {\n\tfor k := range v.children.lowerCaseKeys[strings.ToLower(key)] {\n\t\tif _, exist := v.children.object[k]; exist {\n\t\t\treturn k, true\n\t\t}\n\t}\n\treturn \"\", false\n}\n\nfunc getFromObjectChildren("),
 ("insert_append_delete.go", "\tlowerKey := strings.ToLower(key)\n\tkeys, exist := v.children.lowerCaseKeys[lowerKey]\n\tif !exist {\n\t\treturn false\n\t}\n\n\tfor actualKey := range keys {\n\t\t_, exist = v.children.object[actualKey]\n\t\tif exist {\n\t\t\tdelete(v.children.object, actualKey)\n\t\t\tdelCaselessKey(v, actualKey)\n\t\t\treturn true\n\t\t}\n\t}\n\n\treturn false",
  "\tactualKey, found := anyActualKey(v, key)\n\tif found {\n\t\tdelete(v.children.object, actualKey)\n\t\tdelCaselessKey(v, actualKey)\n\t}\n\treturn found"),
 ("insert_append_delete.go", "import (\n\t\"errors\"\n\t\"fmt\"\n\t\"strings\"\n)", "import (\n\t\"errors\"\n\t\"fmt\"\n)"),
 ("jsonvalue.go", "\tlowerK := strings.ToLower(k)\n\tkeys, exist := v.children.lowerCaseKeys[lowerK]\n\tif !exist {\n\t\tkeys = make(map[string]struct{})\n\t\tv.children.lowerCaseKeys[lowerK] = keys\n\t}\n\tkeys[k] = struct{}{}",
  "\tlowerK := strings.ToLower(k)\n\tif keys := v.children.lowerCaseKeys[lowerK]; keys != nil {\n\t\tkeys[k] = struct{}{}\n\t\treturn\n\t}\n\tv.children.lowerCaseKeys[lowerK] = map[string]struct{}{k: {}}"),
 ("jsonvalue.go", "\tdelete(keys, k)\n\n\tif len(keys) == 0 {", "\tif delete(keys, k); len(keys) < 1 {"),
 ("get.go", "\tv.children.lowerCaseKeys = make(map[string]map[string]struct{}, len(v.children.object))\n\tfor k := range v.children.object {\n\t\taddCaselessKey(v, k)\n\t}",
  "\tindex := map[string]map[string]struct{}{}\n\tfor k := range v.children.object {\n\t\tlower := strings.ToLower(k)\n\t\tif _, ok := index[lower]; !ok {\n\t\t\tindex[lower] = make(map[string]struct{}, 1)\n\t\t}\n\t\tindex[lower][k] = struct{}{}\n\t}\n\tv.children.lowerCaseKeys = index"),
)
G("parse2",
 ('unmarshal.go', '\tshift := func(i *int, le int) {\n\t\tif end-*i < le {\n\t\t\terr = fmt.Errorf(\n\t\t\t\t"%w, expect at least %d remaining bytes, but got %d at Position %d",\n\t\t\t\tErrIllegalString, end-*i, le, *i,\n\t\t\t)\n\t\t\treturn\n\t\t}\n\t\tit.memcpy(sectEnd, *i, le)\n\t\tsectEnd += le\n\t\t*i += le\n\t}\n\n', ''),
 ('unmarshal.go', '\t\tcase runeIdentifyingBytes2(chr):\n\t\t\tshift(&i, 2)\n\t\tcase runeIdentifyingBytes3(chr):\n\t\t\tshift(&i, 3)\n\t\tcase runeIdentifyingBytes4(chr):\n\t\t\tshift(&i, 4)\n\t\tdefault:\n\t\t\terr = fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, i)\n\t\t}\n', '\t\tdefault:\n\t\t\tle := runeLength(chr)\n\t\t\tif le == 0 {\n\t\t\t\treturn -1, -1, fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, i)\n\t\t\t}\n\t\t\tif err = it.moveRune(sectEnd, i, le); err == nil {\n\t\t\t\tsectEnd += le\n\t\t\t\ti += le\n\t\t\t}\n\t\t}\n'),
 ('unmarshal.go', 'func (it iter) handleEscapeStart(i *int, sectEnd *int) error {\n', '// runeLength tells how many bytes a multi-byte character has, or 0.\nfunc runeLength(chr byte) int {\n\tif runeIdentifyingBytes2(chr) {\n\t\treturn 2\n\t}\n\tif runeIdentifyingBytes3(chr) {\n\t\treturn 3\n\t}\n\tif runeIdentifyingBytes4(chr) {\n\t\treturn 4\n\t}\n\treturn 0\n}\n\nfunc (it iter) moveRune(dst, src, le int) error {\n\tif remain := len(it) - src; remain < le {\n\t\treturn fmt.Errorf(\n\t\t\t"%w, expect at least %d remaining bytes, but got %d at Position %d",\n\t\t\tErrIllegalString, remain, le, src,\n\t\t)\n\t}\n\tit.memcpy(dst, src, le)\n\treturn nil\n}\n\nfunc (it iter) handleEscapeStart(i *int, sectEnd *int) error {\n'),
 ('unmarshal.go', "\tfor offset < end {\n\t\tchr := it[offset]\n\t\tswitch chr {\n\t\tcase ' ', '\\r', '\\n', '\\t', '\\b':\n\t\t\toffset++ // continue\n\t\tdefault:\n\t\t\treturn offset, false\n\t\t}\n\t}\n\n\treturn end, true\n}\n", "\tfor ; offset < end; offset++ {\n\t\tif !isBlank(it[offset]) {\n\t\t\treturn offset, false\n\t\t}\n\t}\n\n\treturn end, true\n}\n\nfunc isBlank(chr byte) bool {\n\tswitch chr {\n\tcase ' ', '\\r', '\\n', '\\t', '\\b':\n\t\treturn true\n\t}\n\treturn false\n}\n"),
 ('unmarshal.go', "\tif it[offset] == 'n' &&\n\t\tit[offset+1] == 'u' &&\n\t\tit[offset+2] == 'l' &&\n\t\tit[offset+3] == 'l' {\n\t\treturn offset + 4, nil\n\t}\n", '\tif end = offset + len("null"); string(it[offset:end]) == "null" {\n\t\treturn end, nil\n\t}\n'),
 ('unmarshal.go', '\tfor ; len(it)-idx > 0 && !edgeFound; idx++ {\n\t\tb := it[idx]\n\n\t\tswitch b {\n\t\tdefault:\n\t\t\tedgeFound = true\n', 'loop:\n\tfor idx < len(it) {\n\t\tb := it[idx]\n\t\tidx++\n\n\t\tswitch b {\n\t\tdefault:\n\t\t\tedgeFound = true\n\t\t\tbreak loop\n'),
 ('unmarshal.go', '\t\tcase \'0\':\n\t\t\tif idx == offset {\n\t\t\t\t// OK\n\t\t\t} else if exponentGot {\n\t\t\t\t// OK\n\t\t\t} else if dotGot {\n\t\t\t\tintAfterDotGot = true\n\t\t\t} else if negative {\n\t\t\t\tif integer == 0 && idx != offset+1 {\n\t\t\t\t\terr = it.numErrorf(idx, "unexpected zero")\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t} else if integer == 0 {\n\t\t\t\terr = it.numErrorf(idx, "unexpected zero")\n\t\t\t\treturn\n\t\t\t}\n\t\t\tinteger *= 10\n\n\t\tcase \'1\', \'2\', \'3\', \'4\', \'5\', \'6\', \'7\', \'8\', \'9\':\n\t\t\tif !floated {\n\t\t\t\tinteger = integer*10 + uint64(b) - \'0\'\n\t\t\t} else if !exponentGot {\n\t\t\t\tintAfterDotGot = true\n\t\t\t}\n\n\t\tcase \'e\', \'E\':\n\t\t\tif exponentGot {\n\t\t\t\terr = it.numErrorf(idx, "unexpected exponent symbol")\n\t\t\t\treturn\n\t\t\t}\n\t\t\texponentGot = true\n\t\t\tfloated = true\n\n\t\tcase \'+\':\n\t\t\tif !exponentGot {\n\t\t\t\terr = it.numErrorf(idx, "unexpected +")\n\t\t\t\treturn\n\t\t\t}\n\t\t\t// Codes below not needed because this error is caught in outer logic\n\t\t\t// if !floated {\n\t\t\t// \terr = it.numErrorf(idx, "unexpected positive symbol")\n\t\t\t// \treturn\n\t\t\t// }\n\n\t\tcase \'-\':\n\t\t\tif !floated {\n\t\t\t\tif idx != offset {\n\t\t\t\t\terr = it.numErrorf(idx, "unexpected negative symbol")\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\tnegative = true\n\t\t\t}\n\n\t\tcase \'.\':\n\t\t\tif idx == offset || floated || exponentGot || dotGot {\n\t\t\t\terr = it.numErrorf(idx, "unexpected dot symbol")\n\t\t\t\treturn\n\t\t\t}\n\t\t\tdotGot = true\n\t\t\tfloated = true\n\t\t}\n\t}\n\n', '\t\tcase \'0\':\n\t\t\tif idx == offset+1 {\n\t\t\t\t// OK\n\t\t\t} else if exponentGot {\n\t\t\t\t// OK\n\t\t\t} else if dotGot {\n\t\t\t\tintAfterDotGot = true\n\t\t\t} else if negative {\n\t\t\t\tif integer == 0 && idx != offset+2 {\n\t\t\t\t\terr = it.numErrorf(idx-1, "unexpected zero")\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t} else if integer == 0 {\n\t\t\t\terr = it.numErrorf(idx-1, "unexpected zero")\n\t\t\t\treturn\n\t\t\t}\n\t\t\tinteger *= 10\n\n\t\tcase \'1\', \'2\', \'3\', \'4\', \'5\', \'6\', \'7\', \'8\', \'9\':\n\t\t\tif !floated {\n\t\t\t\tinteger = integer*10 + uint64(b) - \'0\'\n\t\t\t} else if !exponentGot {\n\t\t\t\tintAfterDotGot = true\n\t\t\t}\n\n\t\tcase \'e\', \'E\':\n\t\t\tif exponentGot {\n\t\t\t\terr = it.numErrorf(idx-1, "unexpected exponent symbol")\n\t\t\t\treturn\n\t\t\t}\n\t\t\texponentGot = true\n\t\t\tfloated = true\n\n\t\tcase \'+\':\n\t\t\tif !exponentGot {\n\t\t\t\terr = it.numErrorf(idx-1, "unexpected +")\n\t\t\t\treturn\n\t\t\t}\n\t\t\t// Codes below not needed because this error is caught in outer logic\n\t\t\t// if !floated {\n\t\t\t// \terr = it.numErrorf(idx-1, "unexpected positive symbol")\n\t\t\t// \treturn\n\t\t\t// }\n\n\t\tcase \'-\':\n\t\t\tif !floated {\n\t\t\t\tif idx != offset+1 {\n\t\t\t\t\terr = it.numErrorf(idx-1, "unexpected negative symbol")\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\tnegative = true\n\t\t\t}\n\n\t\tcase \'.\':\n\t\t\tif idx == offset+1 || floated || exponentGot || dotGot {\n\t\t\t\terr = it.numErrorf(idx-1, "unexpected dot symbol")\n\t\t\t\treturn\n\t\t\t}\n\t\t\tdotGot = true\n\t\t\tfloated = true\n\t\t}\n\t}\n\n'),
)
# C01 does not stay quiet on this one (see DESIGN §4); the other checks do.
G("parse3",
 ("unmarshal.go", '\t\tcase \'{\':\n\t\t\tv, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, v)\n\t\t\toffset = sectEnd\n\n\t\tcase \'[\':\n\t\t\tv, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, v)\n\t\t\toffset = sectEnd\n\n\t\tcase \'0\', \'1\', \'2\', \'3\', \'4\', \'5\', \'6\', \'7\', \'8\', \'9\', \'-\':\n\t\t\tvar v *V\n\t\t\tv, sectEnd, _, err := it.parseNumber(p, offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, v)\n\t\t\toffset = sectEnd\n\n\t\tcase \'"\':\n\t\t\tsectLenWithoutQuote, sectEnd, err := it.parseStrFromBytesForwardWithQuote(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tv := NewString(unsafe.BtoS(it[offset+1 : offset+1+sectLenWithoutQuote]))\n\t\t\tappendToArr(arr, v)\n\t\t\toffset = sectEnd\n\n\t\tcase \'t\':\n\t\t\tsectEnd, err := it.parseTrue(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, NewBool(true))\n\t\t\toffset = sectEnd\n\n\t\tcase \'f\':\n\t\t\tsectEnd, err := it.parseFalse(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, NewBool(false))\n\t\t\toffset = sectEnd\n\n\t\tcase \'n\':\n\t\t\tsectEnd, err := it.parseNull(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, NewNull())\n\t\t\toffset = sectEnd\n\n\t\tdefault:\n\t\t\treturn nil, -1, fmt.Errorf("%w, invalid character \\\\u%04X at Position %d", ErrRawBytesUnrecognized, chr, offset)\n', '\t\tdefault:\n\t\t\tv, sectEnd, err := unmarshalMember(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tappendToArr(arr, v)\n\t\t\toffset = sectEnd\n'),
 ("unmarshal.go", "\t\tcase '{':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tv, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n\t\tcase '[':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tv, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n\t\tcase '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tvar v *V\n\t\t\tv, sectEnd, _, err := it.parseNumber(p, offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n", ''),
 ("unmarshal.go", '\t\tcase \'"\':\n\t\t\tif keyEnd > 0 {\n\t\t\t\t// string value\n\t\t\t\tif !colonFound {\n\t\t\t\t\treturn nil, -1, fmt.Errorf("%w, missing value for key \'%s\' at Position %d",\n\t\t\t\t\t\tErrNotObjectValue, unsafe.BtoS(it[keyStart:keyEnd]), keyStart,\n\t\t\t\t\t)\n\t\t\t\t}\n\t\t\t\tsectLenWithoutQuote, sectEnd, err := it.parseStrFromBytesForwardWithQuote(offset)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn nil, -1, err\n\t\t\t\t}\n\t\t\t\tv := NewString(unsafe.BtoS(it[offset+1 : offset+1+sectLenWithoutQuote]))\n\t\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\t\tkeyEnd, colonFound = 0, false\n\t\t\t\toffset = sectEnd\n\n\t\t\t} else {\n\t\t\t\t// string key\n\t\t\t\tsectLenWithoutQuote, sectEnd, err := it.parseStrFromBytesForwardWithQuote(offset)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn nil, -1, err\n\t\t\t\t}\n\t\t\t\tkeyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote\n\t\t\t\toffset = sectEnd\n\t\t\t}\n\n\t\tcase \'t\':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsectEnd, err := it.parseTrue(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewBool(true))\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n\t\tcase \'f\':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsectEnd, err := it.parseFalse(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewBool(false))\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n\t\tcase \'n\':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsectEnd, err := it.parseNull(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewNull())\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n', '\t\tcase \'"\':\n\t\t\tif keyEnd > 0 {\n\t\t\t\t// string value\n\t\t\t\tif !colonFound {\n\t\t\t\t\treturn nil, -1, fmt.Errorf("%w, missing value for key \'%s\' at Position %d",\n\t\t\t\t\t\tErrNotObjectValue, unsafe.BtoS(it[keyStart:keyEnd]), keyStart,\n\t\t\t\t\t)\n\t\t\t\t}\n\t\t\t\tsectLenWithoutQuote, sectEnd, err := it.parseStrFromBytesForwardWithQuote(offset)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn nil, -1, err\n\t\t\t\t}\n\t\t\t\tv := NewString(unsafe.BtoS(it[offset+1 : offset+1+sectLenWithoutQuote]))\n\t\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\t\tkeyEnd, colonFound = 0, false\n\t\t\t\toffset = sectEnd\n\n\t\t\t} else {\n\t\t\t\t// string key\n\t\t\t\tsectLenWithoutQuote, sectEnd, err := it.parseStrFromBytesForwardWithQuote(offset)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn nil, -1, err\n\t\t\t\t}\n\t\t\t\tkeyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote\n\t\t\t\toffset = sectEnd\n\t\t\t}\n\n'),
 ("unmarshal.go", '\t\tdefault:\n\t\t\treturn nil, -1, fmt.Errorf("%w, invalid character \\\\u%04X at Position %d", ErrRawBytesUnrecognized, chr, offset)\n\t\t}\n\n\t}\n\n\treturn nil, -1, fmt.Errorf("%w, cannot find \'}\'", ErrNotObjectValue)\n}\n', '\t\tdefault:\n\t\t\tif !startsValue(chr) {\n\t\t\t\treturn nil, -1, fmt.Errorf("%w, invalid character \\\\u%04X at Position %d", ErrRawBytesUnrecognized, chr, offset)\n\t\t\t}\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tv, sectEnd, err := unmarshalMember(p, it, offset, right, depth+1)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\t\t}\n\t}\n\n\treturn nil, -1, fmt.Errorf("%w, cannot find \'}\'", ErrNotObjectValue)\n}\n\nfunc startsValue(chr byte) bool {\n\tswitch chr {\n\tcase \'{\', \'[\', \'-\', \'t\', \'f\', \'n\':\n\t\treturn true\n\t}\n\treturn isDigit(chr)\n}\n\n// unmarshalMember parses any value of an array or object.\nfunc unmarshalMember(p pool, it iter, offset, right, depth int) (v *V, end int, err error) {\n\tswitch chr := it[offset]; chr {\n\tcase \'{\':\n\t\treturn unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth)\n\tcase \'[\':\n\t\treturn unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth)\n\tcase \'0\', \'1\', \'2\', \'3\', \'4\', \'5\', \'6\', \'7\', \'8\', \'9\', \'-\':\n\t\tv, end, _, err = it.parseNumber(p, offset)\n\tcase \'"\':\n\t\tvar le int\n\t\tle, end, err = it.parseStrFromBytesForwardWithQuote(offset)\n\t\tif err == nil {\n\t\t\tv = NewString(unsafe.BtoS(it[offset+1 : offset+1+le]))\n\t\t}\n\tcase \'t\':\n\t\tif end, err = it.parseTrue(offset); err == nil {\n\t\t\tv = NewBool(true)\n\t\t}\n\tcase \'f\':\n\t\tif end, err = it.parseFalse(offset); err == nil {\n\t\t\tv = NewBool(false)\n\t\t}\n\tcase \'n\':\n\t\tif end, err = it.parseNull(offset); err == nil {\n\t\t\tv = NewNull()\n\t\t}\n\tdefault:\n\t\terr = fmt.Errorf("%w, invalid character \\\\u%04X at Position %d", ErrRawBytesUnrecognized, chr, offset)\n\t}\n\tif err != nil {\n\t\treturn nil, -1, err\n\t}\n\treturn v, end, nil\n}\n'),
)
G("modify2",
 ("insert_append_delete.go", "\tif v.valueType != Array {\n\t\t\treturn &V{}, ErrNotArrayValue\n\t\t}\n\t\tif v.Len() == 0 {\n\t\t\tappendToArr(v, c)\n\t\t} else {\n\t\t\tinsertToArr(v, 0, c)\n\t\t}\n\t\treturn c, nil",
  "\tif v.valueType != Array {\n\t\t\treturn &V{}, ErrNotArrayValue\n\t\t}\n\t\tprependToArr(v, c)\n\t\treturn c, nil"),
 ("insert_append_delete.go", "\tif child.Len() == 0 {\n\t\tappendToArr(child, c)\n\t} else {\n\t\tinsertToArr(child, 0, c)\n\t}\n\treturn c, nil\n}",
  "\tprependToArr(child, c)\n\treturn c, nil\n}\n\nfunc prependToArr(v, c *V) {\n\tif le := v.Len(); le > 0 {\n\t\tinsertToArr(v, 0, c)\n\t\treturn\n\t}\n\tappendToArr(v, c)\n}"),
 ("insert_append_delete.go", "func (v *V) Insert(child any) Inserter {\n\tvar ch *V\n\tvar err error\n\n\tif child == nil {\n\t\tch = NewNull()\n\t} else if childV, ok := child.(*V); ok {\n\t\tch = childV\n\t} else {\n\t\tch, err = Import(child)\n\t}\n\n\treturn &insert{\n\t\tv:   v,\n\t\tc:   ch,\n\t\terr: err,\n\t}\n}",
  "func (v *V) Insert(child any) Inserter {\n\tch, err := toChild(child)\n\treturn &insert{v: v, c: ch, err: err}\n}\n\nfunc toChild(child any) (*V, error) {\n\tswitch c := child.(type) {\n\tcase nil:\n\t\treturn NewNull(), nil\n\tcase *V:\n\t\treturn c, nil\n\tdefault:\n\t\treturn Import(child)\n\t}\n}"),
 ("insert_append_delete.go", "func (v *V) Append(child any) Appender {\n\tvar ch *V\n\tvar err error\n\n\tif child == nil {\n\t\tch = NewNull()\n\t} else if childV, ok := child.(*V); ok {\n\t\tch = childV\n\t} else {\n\t\tch, err = Import(child)\n\t}\n\treturn &appender{\n\t\tv:   v,\n\t\tc:   ch,\n\t\terr: err,\n\t}\n}",
  "func (v *V) Append(child any) Appender {\n\tapd := &appender{v: v}\n\tapd.c, apd.err = toChild(child)\n\treturn apd\n}"),
 ("insert_append_delete.go", "func deleteInCurrentValue(v *V, caseless bool, param any) error {\n\tswitch v.valueType {\n\tcase Object:\n\t\treturn deleteInCurrentObject(v, caseless, param)\n\tcase Array:\n\t\treturn deleteInCurrentArray(v, param)\n\tdefault:\n\t\t// else, this is an object value\n\t\treturn fmt.Errorf(\"%v type does not supports Delete()\", v.valueType)\n\t}\n}",
  "func deleteInCurrentValue(v *V, caseless bool, param any) error {\n\tif t := v.valueType; t == Object {\n\t\treturn deleteInCurrentObject(v, caseless, param)\n\t} else if t != Array {\n\t\treturn fmt.Errorf(\"%v type does not supports Delete()\", t)\n\t}\n\treturn deleteInCurrentArray(v, param)\n}"),
 ("set.go", "\tchild, exist := getFromObjectChildren(v, false, k)\n\tif !exist {\n\t\tif _, err := anyToString(otherParams[0]); err == nil {\n\t\t\tchild = NewObject()\n\t\t} else if i, err := anyToInt(otherParams[0]); err == nil {\n\t\t\tif i != 0 {\n\t\t\t\treturn &V{}, ErrOutOfRange\n\t\t\t}\n\t\t\tchild = NewArray()\n\t\t} else {\n\t\t\treturn &V{}, fmt.Errorf(\"unexpected type %v for Set()\", reflect.TypeOf(otherParams[0]))\n\t\t}\n\t}\n\tnext := &setter{\n\t\tv: child,\n\t\tc: c,\n\t}\n\t_, err = next.At(otherParams[0], otherParams[1:]...)\n\tif err != nil {\n\t\treturn &V{}, err\n\t}\n\tif !exist {\n\t\tsetToObjectChildren(v, k, child)\n\t}\n\treturn c, nil\n}",
  "\tchild, exist := getFromObjectChildren(v, false, k)\n\tif !exist {\n\t\tchild, err = newContainerFor(otherParams[0])\n\t\tif err != nil {\n\t\t\treturn &V{}, err\n\t\t}\n\t}\n\tnext := setter{v: child, c: c}\n\tif _, err := next.At(otherParams[0], otherParams[1:]...); err != nil {\n\t\treturn &V{}, err\n\t}\n\tif exist {\n\t\treturn c, nil\n\t}\n\tsetToObjectChildren(v, k, child)\n\treturn c, nil\n}\n\nfunc newContainerFor(param any) (*V, error) {\n\tif _, err := anyToString(param); err == nil {\n\t\treturn NewObject(), nil\n\t}\n\ti, err := anyToInt(param)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf(\"unexpected type %v for Set()\", reflect.TypeOf(param))\n\t}\n\tif i != 0 {\n\t\treturn nil, ErrOutOfRange\n\t}\n\treturn NewArray(), nil\n}"),
)
G("read",
 ("get.go", "\tchild, err := getInCurrentValue(v, caseless, firstParam)\n\tif err != nil {\n\t\treturn &V{}, err\n\t}\n\n\tif len(otherParams) == 0 {\n\t\treturn child, nil\n\t}\n\treturn get(child, caseless, otherParams[0], otherParams[1:]...)",
  "\tchild, err := getInCurrentValue(v, caseless, firstParam)\n\tfor i := 0; err == nil && i < len(otherParams); i++ {\n\t\tif _, isSlice := otherParams[i].([]any); isSlice {\n\t\t\treturn get(child, caseless, otherParams[i], otherParams[i+1:]...)\n\t\t}\n\t\tif ok, p1, p2 := isSliceAndExtractDividedParams(otherParams[i]); ok {\n\t\t\tif i+1 < len(otherParams) {\n\t\t\t\treturn &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven\n\t\t\t}\n\t\t\treturn get(child, caseless, p1, p2...)\n\t\t}\n\t\tchild, err = getInCurrentValue(child, caseless, otherParams[i])\n\t}\n\tif err != nil {\n\t\treturn &V{}, err\n\t}\n\treturn child, nil"),
 ("get.go", "func getInt(v *V, caseless bool, firstParam any, otherParams ...any) (int, error) {\n\tret, err := get(v, caseless, firstParam, otherParams...)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\tret, err = getNumberAndErrorFromValue(ret)\n\treturn ret.Int(), err\n}",
  "func getInt(v *V, caseless bool, firstParam any, otherParams ...any) (int, error) {\n\tret, err := getNumberAt(v, caseless, firstParam, otherParams)\n\tif ret == nil {\n\t\treturn 0, err\n\t}\n\treturn ret.Int(), err\n}\n\nfunc getNumberAt(v *V, caseless bool, firstParam any, otherParams []any) (*V, error) {\n\tret, err := get(v, caseless, firstParam, otherParams...)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn getNumberAndErrorFromValue(ret)\n}"),
 ("get.go", "\tif ret.valueType != String {\n\t\treturn \"\", ErrTypeNotMatch\n\t}\n\treturn ret.String(), nil", "\tif ret.valueType == String {\n\t\treturn ret.valueStr, nil\n\t}\n\treturn \"\", ErrTypeNotMatch"),
 ("iteration.go", "\tfor k, c := range v.children.object {\n\t\tok := callback(k, c.v)\n\t\tif !ok {\n\t\t\tbreak\n\t\t}\n\t}\n}\n\n// RangeObjectsBySetSequence acts", "\tfor k := range v.children.object {\n\t\tif !callback(k, v.children.object[k].v) {\n\t\t\treturn\n\t\t}\n\t}\n}\n\n// RangeObjectsBySetSequence acts"),
 ("iteration.go", "\tsort.Slice(kvs, func(i, j int) bool {\n\t\treturn kvs[i].id <= kvs[j].id\n\t})", "\tsort.Slice(kvs, func(i, j int) bool {\n\t\ta, b := &kvs[i], &kvs[j]\n\t\treturn b.id > a.id\n\t})"),
 ("iteration.go", "\tfor i, child := range v.children.arr {\n\t\tif ok := callback(i, child); !ok {\n\t\t\tbreak\n\t\t}\n\t}", "\tfor i := 0; i < len(v.children.arr); i++ {\n\t\tif !callback(i, v.children.arr[i]) {\n\t\t\treturn\n\t\t}\n\t}"),
 ("iteration.go", "\tres := make([]*V, 0, len(v.children.arr))\n\treturn append(res, v.children.arr...)", "\tres := make([]*V, len(v.children.arr))\n\tcopy(res, v.children.arr)\n\treturn res"),
 ("compare.go", "\tif len(left.children.object) != len(right.children.object) {\n\t\treturn false\n\t}\n\n\tfor k, leftChild := range left.children.object {\n\t\trightChild, exist := right.children.object[k]\n\t\tif !exist {\n\t\t\treturn false\n\t\t}\n\t\tif !leftChild.v.Equal(rightChild.v) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true",
  "\tif len(right.children.object) != len(left.children.object) {\n\t\treturn false\n\t}\n\n\tsame := true\n\tfor k, rightChild := range right.children.object {\n\t\tleftChild, exist := left.children.object[k]\n\t\tsame = exist && leftChild.v.Equal(rightChild.v)\n\t\tif !same {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn same"),
 ("compare.go", "func (v *V) LessThan(another *V) bool {\n\tres, ok := greaterOrEqualThan(v, another)\n\tif !ok {\n\t\treturn false\n\t}\n\treturn !res\n}", "func (v *V) LessThan(another *V) bool {\n\treturn another.GreaterThan(v)\n}"),
 ("compare.go", "\tfor i, leftChild := range left.children.arr {\n\t\trightChild := right.children.arr[i]\n\t\tif !leftChild.Equal(rightChild) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true", "\tfor i := len(left.children.arr) - 1; i >= 0; i-- {\n\t\tif !left.children.arr[i].Equal(right.children.arr[i]) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true"),
)
G("escape",
 ("conv.go", "\tfor _, r := range s {\n\t\tif r <= 0x7F {\n\t\t\tb := byte(r)\n\t\t\topt.asciiCharEscapingFunc[b](b, buf)\n\t\t} else {\n\t\t\topt.unicodeEscapingFunc(r, buf)\n\t\t}\n\t}",
  "\tfor i := 0; i < len(s); {\n\t\tif b := s[i]; b < utf8.RuneSelf {\n\t\t\topt.asciiCharEscapingFunc[b](b, buf)\n\t\t\ti++\n\t\t\tcontinue\n\t\t}\n\t\tr, size := utf8.DecodeRuneInString(s[i:])\n\t\topt.unicodeEscapingFunc(r, buf)\n\t\ti += size\n\t}"),
 ("conv.go", "import (\n", "import (\n\t\"unicode/utf8\"\n"),
 ("conv.go", "\tif r <= '\\uffff' {\n\t\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\", r))\n\t\treturn\n\t}", "\tif r < 0x10000 {\n\t\twriteUnit(uint16(r), buf)\n\t\treturn\n\t}"),
 ("conv.go", "\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\", hi+0xD800))\n\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\", lo+0xDC00))\n}", "\twriteUnit(uint16(hi+0xD800), buf)\n\twriteUnit(uint16(lo+0xDC00), buf)\n}\n\nconst hexDigits = \"0123456789ABCDEF\"\n\nfunc writeUnit(u uint16, buf buffer.Buffer) {\n\t_, _ = buf.Write([]byte{'\\\\', 'u', hexDigits[u>>12], hexDigits[u>>8&15], hexDigits[u>>4&15], hexDigits[u&15]})\n}"),
 ("conv.go", "\twriteChar := func(c byte) {\n\t\tif c < 0xA {\n\t\t\t_ = buf.WriteByte('0' + c)\n\t\t} else {\n\t\t\t_ = buf.WriteByte('A' + (c - 0xA))\n\t\t}\n\t}\n\n\t_, _ = buf.Write([]byte{'\\\\', 'u', '0', '0'})\n\twriteChar(upper)\n\twriteChar(lower)\n", "\t_, _ = buf.WriteString(`\\u00`)\n\t_ = buf.WriteByte(hexDigits[upper])\n\t_ = buf.WriteByte(hexDigits[lower])\n"),
)
G("escape2",
 ("conv.go", "\tr = r - 0x10000\n\tlo := r & 0x003FF\n\thi := (r & 0xFFC00) >> 10\n\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\", hi+0xD800))\n\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\", lo+0xDC00))", "\thi, lo := utf16.EncodeRune(r)\n\t_, _ = buf.WriteString(fmt.Sprintf(\"\\\\u%04X\\\\u%04X\", hi, lo))"),
 ("conv.go", "import (\n", "import (\n\t\"unicode/utf16\"\n"),
 ("conv.go", "\tfor _, r := range s {\n\t\tif r <= 0x7F {\n\t\t\tb := byte(r)\n\t\t\topt.asciiCharEscapingFunc[b](b, buf)\n\t\t} else {\n\t\t\topt.unicodeEscapingFunc(r, buf)\n\t\t}\n\t}",
  "\tfor _, r := range s {\n\t\tescapeRune(r, buf, opt)\n\t}"),
 ("conv.go", "func escapeStringToBuff(", "func escapeRune(r rune, buf buffer.Buffer, opt *Opt) {\n\tif r >= 0x80 {\n\t\topt.unicodeEscapingFunc(r, buf)\n\t\treturn\n\t}\n\topt.asciiCharEscapingFunc[r](byte(r), buf)\n}\n\nfunc escapeStringToBuff("),
 ("conv.go", "\tif r == '\\u2028' || r == '\\u2029' {\n\t\tescapeGreaterUnicodeToBuffByUTF16(r, buf)\n\t} else {\n\t\t_, _ = buf.WriteRune(r)\n\t}", "\tswitch r {\n\tcase '\\u2028', '\\u2029':\n\t\tescapeGreaterUnicodeToBuffByUTF16(r, buf)\n\tdefault:\n\t\t_, _ = buf.WriteString(string(r))\n\t}"),
 ("option.go", "\titerate := func(from, to int, fu func(b byte, buf buffer.Buffer)) {\n\t\tfor i := from; i <= to; i++ {\n\t\t\to.asciiCharEscapingFunc[i] = fu\n\t\t}\n\t}\n\n\t// ASCII control bytes should always escaped\n\titerate(0x00, 0x07, escAsciiControlChar)", "\t// ASCII control bytes should always escaped\n\tfor i := 0; i < 0x20; i++ {\n\t\to.asciiCharEscapingFunc[i] = escAsciiControlChar\n\t}"),
 ("option.go", "\to.asciiCharEscapingFunc['\\v'] = escAsciiControlChar\n\titerate(0x0E, 0x1F, escAsciiControlChar)\n", ""),
)
G("parse",
 ("unmarshal.go", "\tb3 := chrToHex(it[*i+2], &err)\n\tb2 := chrToHex(it[*i+3], &err)\n\tb1 := chrToHex(it[*i+4], &err)\n\tb0 := chrToHex(it[*i+5], &err)\n\tif err != nil {\n\t\treturn\n\t}\n\n\tr := (rune(b3) << 12) + (rune(b2) << 8) + (rune(b1) << 4) + rune(b0)\n",
  "\tr, err := it.hex4(*i + 2)\n\tif err != nil {\n\t\treturn err\n\t}\n"),
 ("unmarshal.go", "\tex3 := chrToHex(it[*i+8], &err)\n\tex2 := chrToHex(it[*i+9], &err)\n\tex1 := chrToHex(it[*i+10], &err)\n\tex0 := chrToHex(it[*i+11], &err)\n\tif err != nil {\n\t\treturn\n\t}\n\n\tex := (rune(ex3) << 12) + (rune(ex2) << 8) + (rune(ex1) << 4) + rune(ex0)\n",
  "\tex, err := it.hex4(*i + 8)\n\tif err != nil {\n\t\treturn err\n\t}\n"),
 ("unmarshal.go", "func chrToHex(chr byte, errOut *error) byte {", "// hex4 reads four hexadecimal digits\nfunc (it iter) hex4(pos int) (r rune, err error) {\n\tfor _, chr := range it[pos : pos+4] {\n\t\tr = r<<4 | rune(chrToHex(chr, &err))\n\t}\n\treturn r, err\n}\n\nfunc chrToHex(chr byte, errOut *error) byte {"),
 ("unmarshal.go", "\tif it[offset] == 't' &&\n\t\tit[offset+1] == 'r' &&\n\t\tit[offset+2] == 'u' &&\n\t\tit[offset+3] == 'e' {\n\t\treturn offset + 4, nil\n\t}", "\tif string(it[offset:offset+4]) == \"true\" {\n\t\treturn offset + 4, nil\n\t}"),
 ("unmarshal.go", "\tcase 'b':\n\t\tit[*sectEnd] = '\\b'\n\t\t*sectEnd++\n\t\t*i += 2\n\tcase 'f':\n\t\tit[*sectEnd] = '\\f'\n\t\t*sectEnd++\n\t\t*i += 2\n\tcase 'r':\n\t\tit[*sectEnd] = '\\r'\n\t\t*sectEnd++\n\t\t*i += 2\n",
  "\tcase 'b':\n\t\tit.unescaped('\\b', i, sectEnd)\n\tcase 'f':\n\t\tit.unescaped('\\f', i, sectEnd)\n\tcase 'r':\n\t\tit.unescaped('\\r', i, sectEnd)\n"),
 ("unmarshal.go", "func (it iter) handleEscapeUnicodeStartWithEnd(", "func (it iter) unescaped(chr byte, i, sectEnd *int) {\n\tit[*sectEnd] = chr\n\t*sectEnd++\n\t*i += 2\n}\n\nfunc (it iter) handleEscapeUnicodeStartWithEnd("),
 ("unmarshal.go", "\tif dst == src {\n\t\treturn\n\t}\n\tcopy(it[dst:dst+length], it[src:src+length])", "\tif dst != src {\n\t\tcopy(it[dst:], it[src:src+length])\n\t}"),
 ("unmarshal.go", "\t\tcase 't':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsectEnd, err := it.parseTrue(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewBool(true))\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n\n\t\tcase 'f':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsectEnd, err := it.parseFalse(offset)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewBool(false))\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n",
  "\t\tcase 't', 'f':\n\t\t\tif err = keyNotFoundErr(); err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tvar sectEnd int\n\t\t\tif chr == 't' {\n\t\t\t\tsectEnd, err = it.parseTrue(offset)\n\t\t\t} else {\n\t\t\t\tsectEnd, err = it.parseFalse(offset)\n\t\t\t}\n\t\t\tif err != nil {\n\t\t\t\treturn nil, -1, err\n\t\t\t}\n\t\t\tsetToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), NewBool(chr == 't'))\n\t\t\tkeyEnd, colonFound = 0, false\n\t\t\toffset = sectEnd\n"),
)
G("import",
 ("import_export.go", "\tres := NewArray()\n\tle := v.Len()\n\n\tfor i := 0; i < le; i++ {\n\t\tvv := v.Index(i)\n\t\tvv, fu, err := validateValAndReturnParser(vv, ex)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tchild, err := fu(vv, ex)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tif _, err := res.Append(child).InTheEnd(); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\treturn res, nil\n}",
  "\tres := NewArray()\n\tapd := func(child *V) error {\n\t\t_, err := res.Append(child).InTheEnd()\n\t\treturn err\n\t}\n\tfor i, le := 0, v.Len(); i < le; i++ {\n\t\tchild, err := parseElement(v.Index(i), ex)\n\t\tif err == nil {\n\t\t\terr = apd(child)\n\t\t}\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\treturn res, nil\n}\n\nfunc parseElement(v reflect.Value, ex ext) (*V, error) {\n\tv, fu, err := validateValAndReturnParser(v, ex)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn fu(v, ex)\n}"),
 ("import_export.go", "\tfor _, kk := range keys {\n\t\tvv := v.MapIndex(kk)\n\t\tvv, fu, err := validateValAndReturnParser(vv, ex)\n\t\tif err != nil {\n\t\t\treturn res, err\n\t\t}\n\t\tchild, err := fu(vv, ex)\n\t\tif err != nil {\n\t\t\treturn res, err\n\t\t}\n",
  "\tfor i := range keys {\n\t\tkk := keys[i]\n\t\tchild, err := parseElement(v.MapIndex(kk), ex)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n"),
 ("import_export.go", "\t\tfor i, k := range keys {\n\t\t\tv := children[i]\n\t\t\tif _, err := res.Set(v).At(k); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t}", "\t\tfor i := 0; i < len(keys); i++ {\n\t\t\tif _, err = res.Set(children[i]).At(keys[i]); err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t}"),
 ("import_export.go", "\tif child != nil {\n\t\treturn []string{fieldName}, []*V{child}, nil\n\t}\n\n\treturn nil, nil, nil", "\tif child == nil { // omitted\n\t\treturn nil, nil, nil\n\t}\n\tkeys = append(keys, fieldName)\n\tchildren = append(children, child)\n\treturn keys, children, nil"),
)
G("marshal",
 ("marshal.go", "\tcase FloatNaNConvertToFloat:\n\t\tif !isValidFloat(opt.FloatNaNToFloat) {\n\t\t\treturn fmt.Errorf(\"%w: %v\", ErrUnsupportedFloatInOpt, opt.FloatNaNToFloat)\n\t\t}\n\t\tb, _ := json.Marshal(opt.FloatNaNToFloat)\n\t\t_, _ = buf.Write(b)\n", "\tcase FloatNaNConvertToFloat:\n\t\treturn writeFloat(opt.FloatNaNToFloat, buf)\n"),
 ("marshal.go", "\tcase FloatInfConvertToFloat:\n\t\tif !isValidFloat(opt.FloatInfToFloat) {\n\t\t\treturn fmt.Errorf(\"%w: %v\", ErrUnsupportedFloatInOpt, opt.FloatInfToFloat)\n\t\t}\n\t\tb, _ := json.Marshal(opt.FloatInfToFloat)\n\t\t_, _ = buf.Write(b)\n", "\tcase FloatInfConvertToFloat:\n\t\treturn writeFloat(opt.FloatInfToFloat, buf)\n"),
 ("marshal.go", "func isValidFloat(f float64) bool {\n\tif math.IsNaN(f) {\n\t\treturn false\n\t}\n\tif math.IsInf(f, 0) {\n\t\treturn false\n\t}\n\treturn true\n}", "func writeFloat(f float64, buf buffer.Buffer) error {\n\tif !isValidFloat(f) {\n\t\treturn fmt.Errorf(\"%w: %v\", ErrUnsupportedFloatInOpt, f)\n\t}\n\tb, err := json.Marshal(f)\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, _ = buf.Write(b)\n\treturn nil\n}\n\nfunc isValidFloat(f float64) bool {\n\treturn !math.IsNaN(f) && !math.IsInf(f, 0)\n}"),
 ("marshal.go", "\tv.RangeArray(func(i int, child *V) bool {\n\t\tif i > 0 {\n\t\t\t_ = buf.WriteByte(',')\n\t\t}\n\t\tif opt.indent.enabled {\n\t\t\t_ = buf.WriteByte('\\n')\n\t\t\twriteIndent(buf, opt)\n\t\t}\n\t\tif opt.MarshalLessFunc == nil {\n\t\t\terr = marshalToBuffer(child, nil, buf, opt)\n\t\t} else {\n\t\t\terr = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)\n\t\t}\n\t\treturn err == nil\n\t})\n\tif err != nil {\n\t\treturn err\n\t}\n",
  "\tfor i, child := range v.children.arr {\n\t\tif i != 0 {\n\t\t\t_ = buf.WriteByte(',')\n\t\t}\n\t\tif opt.indent.enabled {\n\t\t\t_, _ = buf.WriteString(\"\\n\")\n\t\t\twriteIndent(buf, opt)\n\t\t}\n\t\tvar info *ParentInfo\n\t\tif opt.MarshalLessFunc != nil {\n\t\t\tinfo = newParentInfo(v, parentInfo, intKey(i))\n\t\t}\n\t\tif err = marshalToBuffer(child, info, buf, opt); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n"),
 ("marshal.go", "\t_ = buf.WriteByte('\"')\n\tescapeStringToBuff(key, buf, opt)\n\n\tif opt.indent.enabled {\n\t\t_, _ = buf.WriteString(\"\\\": \")\n\t} else {\n\t\t_, _ = buf.WriteString(\"\\\":\")\n\t}\n", "\t_, _ = buf.WriteString(`\"`)\n\tescapeStringToBuff(key, buf, opt)\n\t_, _ = buf.Write([]byte{'\"', ':'})\n\tif opt.indent.enabled {\n\t\t_ = buf.WriteByte(' ')\n\t}\n"),
 ("marshal.go", "\tif child.IsNull() && opt.OmitNull {\n\t\t// nothing is written, thus whether some one was written remains unchanged\n\t\treturn !isFirstOne, nil\n\t}\n\tif !isFirstOne {", "\tif opt.OmitNull && child.valueType == Null {\n\t\twritten = !isFirstOne\n\t\treturn\n\t}\n\tif !isFirstOne {"),
)

G("options",
 ("option.go", "\t\topt.MarshalLessFunc = o.f\n\t\topt.MarshalKeySequence = nil\n\t\topt.keySequence = nil\n\t\topt.marshalBySetSequence = false\n", "\t\topt.clearSequence()\n\t\topt.MarshalLessFunc = o.f\n"),
 ("option.go", "\topt.MarshalLessFunc = nil\n\topt.MarshalKeySequence = o.seq\n\topt.keySequence = nil\n\topt.marshalBySetSequence = false\n}", "\topt.clearSequence()\n\topt.MarshalKeySequence = o.seq\n}\n\nfunc (opt *Opt) clearSequence() {\n\topt.MarshalLessFunc, opt.MarshalKeySequence = nil, nil\n\topt.keySequence, opt.marshalBySetSequence = nil, false\n}"),
 ("option.go", "\topt.MarshalLessFunc = nil\n\topt.MarshalKeySequence = nil\n\topt.keySequence = nil\n\topt.marshalBySetSequence = true\n", "\topt.clearSequence()\n\topt.marshalBySetSequence = true\n"),
 ("option.go", "\tif o {\n\t\topt.escProperties = opt.escProperties.clear(escapeWithoutHTML)\n\t} else {\n\t\topt.escProperties = opt.escProperties.set(escapeWithoutHTML)\n\t}", "\topt.escProperties.turn(escapeWithoutHTML, !bool(o))"),
 ("option.go", "\tif o {\n\t\topt.escProperties = opt.escProperties.clear(escapeIgnoreSlash)\n\t} else {\n\t\topt.escProperties = opt.escProperties.set(escapeIgnoreSlash)\n\t}", "\topt.escProperties.turn(escapeIgnoreSlash, !bool(o))"),
 ("option.go", "func (esc escapingProperties) set(", "func (esc *escapingProperties) turn(mask escapingProperties, on bool) {\n\tif on {\n\t\t*esc = esc.set(mask)\n\t\treturn\n\t}\n\t*esc = esc.clear(mask)\n}\n\nfunc (esc escapingProperties) set("),
 ("option.go", "\tfor _, o := range opts {\n\t\to.mergeTo(opt)\n\t}\n\topt.parseEscapingFuncs()", "\tfor i := 0; i < len(opts); i++ {\n\t\topts[i].mergeTo(opt)\n\t}\n\topt.parseEscapingFuncs()"),
 ("option.go", "\topt.FloatInfHandleType = FloatInfConvertToString\n\topt.FloatInfPositiveToString = o.positive\n\topt.FloatInfNegativeToString = o.negative", "\tc := *opt\n\tc.FloatInfNegativeToString = o.negative\n\tc.FloatInfPositiveToString = o.positive\n\tc.FloatInfHandleType = FloatInfConvertToString\n\t*opt = c"),
 ("option.go", "\tres := *internal.defaultMarshalOption.Load().(*Opt)\n\treturn &res", "\tdefaults, _ := internal.defaultMarshalOption.Load().(*Opt)\n\tres := *defaults\n\treturn &res"),
 ("marshal.go", "\tif opt.MarshalLessFunc != nil {\n\t\tsov := newSortObjectV(v, parentInfo, opt)\n\t\terr = sov.marshalObjectWithLessFunc(buf, opt)\n\n\t} else if len(opt.MarshalKeySequence) > 0 {\n\t\tsssv := newSortStringSliceV(v, opt)\n\t\terr = sssv.marshalObjectWithStringSlice(buf, opt)\n\n\t} else if opt.marshalBySetSequence {\n\t\tsssv := newSortStringSliceVBySetSeq(v)\n\t\terr = sssv.marshalObjectWithStringSlice(buf, opt)\n\n\t} else {\n\t\terr = writeObjectKVInRandomizedSequence(v, buf, opt)\n\t}\n",
  "\tswitch {\n\tcase opt.MarshalLessFunc != nil:\n\t\terr = newSortObjectV(v, parentInfo, opt).marshalObjectWithLessFunc(buf, opt)\n\tcase len(opt.MarshalKeySequence) > 0:\n\t\terr = newSortStringSliceV(v, opt).marshalObjectWithStringSlice(buf, opt)\n\tcase opt.marshalBySetSequence:\n\t\terr = newSortStringSliceVBySetSeq(v).marshalObjectWithStringSlice(buf, opt)\n\tdefault:\n\t\terr = writeObjectKVInRandomizedSequence(v, buf, opt)\n\t}\n"),
 ("sort.go", "\tfor k, child := range v.children.object {\n\t\tsov.keys = append(sov.keys, k)\n\t\tsov.values = append(sov.values, child.v)\n\t}\n\n\treturn &sov", "\tv.RangeObjects(func(k string, child *V) bool {\n\t\tsov.keys = append(sov.keys, k)\n\t\tsov.values = append(sov.values, child)\n\t\treturn true\n\t})\n\treturn &sov"),
 ("sort.go", "\tkeySequence := make(map[string]int, len(v.children.object))\n\tfor k, child := range v.children.object {\n\t\tkeySequence[k] = int(child.id)\n\t}\n\n\tsssv := sortStringSliceV{\n\t\tv:      v,\n\t\tseq:    keySequence,\n\t\tkeys:   make([]string, 0, v.Len()),\n\t\tvalues: make([]*V, 0, v.Len()),\n\t}\n\tfor k, child := range v.children.object {\n",
  "\tkeySequence := make(map[string]int, len(v.children.object))\n\tsssv := sortStringSliceV{\n\t\tv:      v,\n\t\tseq:    keySequence,\n\t\tkeys:   make([]string, 0, v.Len()),\n\t\tvalues: make([]*V, 0, v.Len()),\n\t}\n\tfor k, child := range v.children.object {\n\t\tkeySequence[k] = int(child.id)\n"),
 ("sort.go", "\tif exist1 {\n\t\tif exist2 {\n\t\t\treturn seq1 < seq2\n\t\t}\n\t\treturn true\n\t}\n\tif exist2 {\n\t\treturn false\n\t}\n\n\treturn k1 <= k2", "\tswitch {\n\tcase exist1 && exist2:\n\t\treturn seq2 > seq1\n\tcase exist1 != exist2:\n\t\treturn exist1\n\t}\n\treturn k1 <= k2"),
 ("sort.go", "\tv1 := v.v.children.arr[i]\n\tv2 := v.v.children.arr[j]\n\treturn v.lessFunc(v1, v2)", "\tarr := v.v.children.arr\n\treturn v.lessFunc(arr[i], arr[j])"),
 ("sort.go", "\tv.v.children.arr[i], v.v.children.arr[j] = v.v.children.arr[j], v.v.children.arr[i]", "\tarr := v.v.children.arr\n\ttmp := arr[i]\n\tarr[i] = arr[j]\n\tarr[j] = tmp"),
)
G("numbers",
 ("new.go", "\tv := new(globalPool{}, Number)\n\t// v.num = &num{}\n\tv.num.floated = false\n\tv.num.negative = i < 0\n\tv.num.f64 = float64(i)\n\tv.num.i64 = i\n\tv.num.u64 = uint64(i)\n\ts := strconv.FormatInt(v.num.i64, 10)\n\tv.srcByte = []byte(s)\n\treturn v",
  "\treturn newInteger(num{negative: i < 0, f64: float64(i), i64: i, u64: uint64(i)}, strconv.AppendInt(nil, i, 10))"),
 ("new.go", "\tv := new(globalPool{}, Number)\n\t// v.num = &num{}\n\tv.num.floated = false\n\tv.num.negative = false\n\tv.num.f64 = float64(u)\n\tv.num.i64 = int64(u)\n\tv.num.u64 = u\n\ts := strconv.FormatUint(v.num.u64, 10)\n\tv.srcByte = []byte(s)\n\treturn v\n}",
  "\ts := strconv.FormatUint(u, 10)\n\treturn newInteger(num{f64: float64(u), i64: int64(u), u64: u}, []byte(s))\n}\n\nfunc newInteger(n num, text []byte) *V {\n\tv := new(globalPool{}, Number)\n\tv.num, v.srcByte = n, text\n\treturn v\n}"),
 ("new.go", "\tabs := math.Abs(f)\n\tformat := byte('f')\n\tif abs < 1e-6 || abs >= 1e21 {\n\t\tformat = byte('e')\n\t}\n\n\treturn newFloat64f(globalPool{}, f, format, -1, 64)", "\treturn newFloat64f(globalPool{}, f, formatOf(f), -1, 64)"),
 ("new.go", "\tabs := math.Abs(f64)\n\tformat := byte('f')\n\tif abs < 1e-6 || abs >= 1e21 {\n\t\tformat = byte('e')\n\t}\n\n\treturn newFloat64f(globalPool{}, f64, format, -1, 32)\n}", "\treturn newFloat64f(globalPool{}, f64, formatOf(f64), -1, 32)\n}\n\nfunc formatOf(f float64) byte {\n\tif abs := math.Abs(f); abs >= 1e-6 && abs < 1e21 {\n\t\treturn 'f'\n\t}\n\treturn 'e'\n}"),
 ("new.go", "\tv := pool.get(p)\n\tv.valueType = t\n\treturn v", "\tif v := pool.get(p); v != nil {\n\t\tv.valueType = t\n\t\treturn v\n\t}\n\treturn &V{valueType: t}"),
 ("jsonvalue.go", "\tif v.valueType != Number {\n\t\treturn false\n\t}\n\treturn v.num.negative", "\treturn v.valueType == Number && v.num.negative"),
 ("jsonvalue.go", "\tif v.valueType != Number {\n\t\treturn false\n\t}\n\treturn !(v.num.negative)", "\treturn v.IsNumber() && !v.IsNegative()"),
 ("jsonvalue.go", "\tif v.num.negative {\n\t\treturn false\n\t}\n\treturn v.num.u64 > 0x7fffffffffffffff", "\treturn !v.num.negative && v.num.u64 >= 1<<63"),
 ("get.go", "\tswitch v.valueType {\n\tdefault:\n\t\treturn NewInt(0), ErrTypeNotMatch\n\n\tcase Number:\n\t\treturn v, nil\n\n\tcase String:\n\t\tret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))\n\t\terr := parseNumber(ret, globalPool{})\n\t\tif err != nil {\n\t\t\treturn NewInt(0), fmt.Errorf(\"%w: %v\", ErrParseNumberFromString, err)\n\t\t}\n\t\treturn ret, ErrTypeNotMatch\n\t}",
  "\tif v.valueType == Number {\n\t\treturn v, nil\n\t}\n\tif v.valueType != String {\n\t\treturn NewInt(0), ErrTypeNotMatch\n\t}\n\ttext := bytes.TrimSpace([]byte(v.valueStr))\n\tret, _ := newFromNumber(globalPool{}, text)\n\tif err := parseNumber(ret, globalPool{}); err != nil {\n\t\treturn NewInt(0), fmt.Errorf(\"%w: %v\", ErrParseNumberFromString, err)\n\t}\n\treturn ret, ErrTypeNotMatch"),
)

def apply(name):
    d = f"/tmp/refactor/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/refactor", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    for f, old, new in GROUPS[name]:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) != 1:
            return d, f"edit of {f} matches {s.count(old)} times: {old[:70]!r}"
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    r = subprocess.run("export PATH=/opt/veriftools/go1.27.3/bin:$PATH; gofmt -l *.go beta internal; go vet . ./internal/... ./beta/... 2>&1 | grep -v '^#' | head -5; go test ./... 2>&1 | grep -v '^ok\\|no test files' | tail -15", shell=True, cwd=d, env=env, capture_output=True, text=True)
    return d, r.stdout.strip()

def main():
    names = sys.argv[1:] or list(GROUPS)
    os.makedirs("/tmp/refactor", exist_ok=True)
    subprocess.run([os.path.join(ROOT, "check.sh"), "build"], check=True)
    exe = f"/tmp/refactor/analyzer.{os.getpid()}"; shutil.copy(os.path.join(ROOT, "bin/analyzer"), exe)
    props = os.environ.get("PROPS")
    props = props.split(",") if props else [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    dirs = {}
    for n in names:
        d, out = apply(n)
        dirs[n] = d
        print(f"== {n}: tests {'ok' if not out else out}", flush=True)
    def one(job):
        n, p = job
        v = f"/tmp/refactor/v-{n}-{p}"; os.makedirs(v + "/evidence", exist_ok=True)
        for f in ("known-findings.txt",):
            shutil.copy(os.path.join(ROOT, f), v)
        try:
            r = subprocess.run([exe, "-repo", dirs[n], "-prop", p, "-verif", v], capture_output=True, text=True, timeout=900)
            return n, p, r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            return n, p, 99, "timeout"
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for n, p, rc, out in ex.map(one, [(n, p) for n in names for p in props]):
            if rc:
                bad += 1
                print(f"-- {n} {p}: exit {rc}\n" + "\n".join(l[:400] for l in out.splitlines()[:int(os.environ.get('LINES_PER', '6'))]), flush=True)
    os.remove(exe)
    print(bad, "not quiet")
main()
