From 64fa25a802de5af7cb31ed024e52385c228847b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:47 +0000
Subject: [PATCH 01/25] fix: keep the comma when a null member is omitted
 between two members

With OmitNull, an omitted member reset the 'something was written' state, so
{"a":1,"b":null,"c":2} was marshaled as {"a":1"c":2}.
---
 marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..330490b 100644
--- a/marshal.go
+++ b/marshal.go
@@ -260,7 +260,8 @@ func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
 ) (written bool) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		// nothing is written, thus whether some one was written remains unchanged
+		return !isFirstOne
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
-- 
2.43.0


From 24eb0850cbec6785d4000c5dcc61b591d851614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:06 +0000
Subject: [PATCH 02/25] fix: report marshaling errors of nested values

The error of a NaN or Inf inside an object or array was dropped, and the
invalid text {"a":} was returned with a nil error.
---
 marshal.go | 50 +++++++++++++++++++++++++++++++-------------------
 sort.go    | 16 ++++++++++++----
 2 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index 330490b..814f861 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,21 +250,26 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (err error) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
 		// nothing is written, thus whether some one was written remains unchanged
-		return !isFirstOne
+		return !isFirstOne, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -281,8 +289,8 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	err = marshalToBuffer(child, parentInfo, buf, opt)
+	return true, err
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -292,10 +300,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -310,12 +318,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -323,4 +334,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 0ebfc8e..07eaf3e 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sov)
 
@@ -195,8 +195,12 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -235,7 +239,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sssv)
 
@@ -243,8 +247,12 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 6090832dae20e7bcb3036e396ea8543288507b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 03/25] fix: return an error when marshaling a container with
 an uninitialized member

Nothing was written for such a member, which gave invalid text like [1,].
---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 814f861..f77b114 100644
--- a/marshal.go
+++ b/marshal.go
@@ -66,7 +66,7 @@ func (v *V) MarshalString(opts ...Option) (s string, err error) {
 func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	switch v.valueType {
 	default:
-		// do nothing
+		err = ErrValueUninitialized
 	case String:
 		marshalString(v, buf, opt)
 	case Boolean:
-- 
2.43.0


From c91e483d6136399a9c13fceba522a790a1090a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 04/25] fix: escape the vertical tab (0x0B) when marshaling
 strings

It was the only control character written raw, which is not valid JSON.
---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 163bff1..6fbe862 100644
--- a/option.go
+++ b/option.go
@@ -579,6 +579,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	o.asciiCharEscapingFunc['\v'] = escAsciiControlChar
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From 965f02fe324c59e3e7481f5f506a4bd4003fe8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:40 +0000
Subject: [PATCH 05/25] fix: KeyPath.String panics unless default options were
 set

The system default options have no escaping functions before they are parsed,
so a nil function was called for the first string key.
---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 07eaf3e..a2d6881 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From 6db5ce60cd0988cb8479eaa6184080556299dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:55 +0000
Subject: [PATCH 06/25] fix: make the default marshal options goroutine-safe as
 documented

SetDefaultMarshalOptions and ResetDefaultMarshalOptions raced with every
marshaling on a plain pointer.
---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..6cdf4be 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // of *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 6fbe862..a57c367 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -225,7 +225,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From 317e14f7f8b7ce3f955056a70791413c94d68593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:59 +0000
Subject: [PATCH 07/25] fix: Unmarshal of empty input returns a NotExist value
 instead of nil

MustUnmarshal promises a NotExist value on error, and UnmarshalNoCopy already
returned one.
---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From e3aa375640df5fb349614fa5748c27aaff2e02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:46 +0000
Subject: [PATCH 08/25] fix: number getters panic on a blank string value

Int(), GetInt() and their siblings parse a string value as a number, and
indexed into the empty text left after trimming the blanks.
---
 unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..c2d6409 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -763,6 +763,11 @@ func (it iter) parseNumber(
 		idx--
 	}
 
+	if idx == offset {
+		err = it.numErrorf(offset, "invalid number format")
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
-- 
2.43.0


From a6abeffa6a7c8102ce9a29290987c4096b8fbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:07 +0000
Subject: [PATCH 09/25] fix: reject numbers with a malformed integer part such
 as -01, 01.5 and -.5

They are not JSON, and were marshaled again verbatim.
---
 unmarshal.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index c2d6409..e877283 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -768,6 +768,20 @@ func (it iter) parseNumber(
 		return
 	}
 
+	// the integer part is either a single zero, or starts with a non-zero digit
+	intStart := offset
+	if negative {
+		intStart++
+	}
+	if intStart >= idx || !isDigit(it[intStart]) {
+		err = it.numErrorf(offset, "invalid number format")
+		return
+	}
+	if it[intStart] == '0' && intStart+1 < idx && isDigit(it[intStart+1]) {
+		err = it.numErrorf(offset, "integer part should not start with zero")
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
@@ -800,6 +814,10 @@ func (it iter) parseNumber(
 	return v, idx, len(it)-idx == 0, err
 }
 
+func isDigit(chr byte) bool {
+	return chr >= '0' && chr <= '9'
+}
+
 func (it iter) numErrorf(offset int, f string, a ...any) error {
 	a = append([]any{offset}, a...)
 	return fmt.Errorf("parsing number at index %d: "+f, a...)
-- 
2.43.0


From 428d88ece624d58ba759982927507ba7a56d0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:11 +0000
Subject: [PATCH 10/25] fix: reject 20-digit integers greater than the maximum
 uint64

30000000000000000000 wrapped around to a value which passed the range check.
---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index e877283..e1959e7 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -876,7 +876,8 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		// a 20-digit integer that starts with '2' or more may wrap around to any value
+		if it[start] != '1' || integer < uintMaxDigits {
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From 26925ce582de188c0ce5a44dcafc7f6390dfd0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 11/25] fix: reject a low surrogate as the first unit of an
 escaped UTF-16 pair

It was decoded to bytes which are not valid UTF-8.
---
 unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index e1959e7..037b1a5 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -492,6 +492,14 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 		return nil
 	}
 
+	// a low surrogate could not be the first one of a UTF-16 pair
+	if r > 0xDBFF {
+		return fmt.Errorf(
+			"%w, expect first UTF-16 encoding but got 0x%04X at position %d",
+			ErrIllegalString, r, *i+2,
+		)
+	}
+
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
 	// should get another unicode-escaped character
 	if end-*i <= 11 {
-- 
2.43.0


From 1c2b1b317593debdde2928785317cddc5b291ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 12/25] fix: Import panics on a struct which embeds *V

---
 import_export.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 724754e..d025a1d 100644
--- a/import_export.go
+++ b/import_export.go
@@ -191,7 +191,8 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 }
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
-	if v.IsNil() {
+	// a struct which embeds *V is a deepCopier, too
+	if v.Kind() == reflect.Ptr && v.IsNil() {
 		return nil, nil // empty
 	}
 	j, _ := v.Interface().(deepCopier)
-- 
2.43.0


From bd234757183ee8545d71e4ac8671b17614c112cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 13/25] fix: Import a nil pointer to a marshaler as null

A nil *V, *time.Time and so on became a nil *V, which panicked in a slice when
marshaling, and was dropped from maps and structs.
---
 import_export.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/import_export.go b/import_export.go
index d025a1d..5e09c1a 100644
--- a/import_export.go
+++ b/import_export.go
@@ -193,7 +193,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	// a struct which embeds *V is a deepCopier, too
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -201,11 +201,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -247,11 +247,11 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-		return NewNull(), nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalText()
 	if err != nil {
-- 
2.43.0


From c3c4a0300491476128c67a8e98d071cf48005891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:23 +0000
Subject: [PATCH 14/25] fix: Import applies omitempty to the field itself, not
 to what it contains

Zero members of a map and zero values behind a pointer were dropped, unlike
what encoding/json does. In an array of an unexported embedded type they
became nil elements.
---
 import_export.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 5e09c1a..bcde806 100644
--- a/import_export.go
+++ b/import_export.go
@@ -329,7 +329,8 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
-	ex.omitempty = false
+	// omitempty affects the array itself, but not its elements
+	ex.omitempty, ex.private = false, false
 	res := NewArray()
 	le := v.Len()
 
@@ -362,6 +363,8 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		return NewObject(), nil
 	}
 
+	// omitempty affects the map itself, but not its elements
+	ex.omitempty, ex.private = false, false
 	res := NewObject()
 
 	for _, kk := range keys {
@@ -403,6 +406,8 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 
+	// omitempty affects the pointer itself, but not the value it points to
+	ex.omitempty = false
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 55b820dd2aeb0354a95367e53176647208e4469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:40 +0000
Subject: [PATCH 15/25] fix: Append and Insert check their value and target as
 Set does

Append ignored the import error of its value, both accepted a nil or
uninitialized value (which panicked or broke the text when marshaling later),
and Before() and InTheEnd() panicked on a nil target.
---
 insert_append_delete.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..28b1b6d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,7 +189,10 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -428,11 +434,17 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -478,9 +490,15 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From 68655d87820b7d5375d4b52659caa4b466df1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:40 +0000
Subject: [PATCH 16/25] fix: Import returns an error instead of dropping a
 member which cannot be set

---
 import_export.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/import_export.go b/import_export.go
index bcde806..db2ff19 100644
--- a/import_export.go
+++ b/import_export.go
@@ -344,7 +344,9 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
-		res.MustAppend(child).InTheEnd()
+		if _, err := res.Append(child).InTheEnd(); err != nil {
+			return nil, err
+		}
 	}
 
 	return res, nil
@@ -377,7 +379,9 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		if err != nil {
 			return res, err
 		}
-		res.MustSet(child).At(keyFunc(kk))
+		if _, err := res.Set(child).At(keyFunc(kk)); err != nil {
+			return nil, err
+		}
 	}
 
 	return res, nil
@@ -462,7 +466,9 @@ func parseStructValue(v reflect.Value, ex ext) (*V, error) {
 
 		for i, k := range keys {
 			v := children[i]
-			res.MustSet(v).At(k)
+			if _, err := res.Set(v).At(k); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From e58ac7da0d13357dfea9c88c12e0d325957a7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:54 +0000
Subject: [PATCH 17/25] fix: Set().At() with more keys after an out-of-range
 index returns ErrOutOfRange

As documented, only the index which equals to the length of the array appends
to it. Any other one appended, too, unless it was the last parameter.
---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6ff47bc 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From cb5b40eb826eb2acd717b8973d7e2758b5d613b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 18/25] fix: an unsigned index greater than the maximum int is
 out of range

It wrapped around to a negative one and located an element from the end.
---
 conv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..4227ffc 100644
--- a/conv.go
+++ b/conv.go
@@ -142,7 +142,11 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		const maxInt = uint64(^uint(0) >> 1)
+		if u := value.Uint(); u <= maxInt {
+			return int(u), nil
+		}
+		return int(maxInt), nil // it is out of range of any array
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From 4c74522486a86adb864abee15697fbc91f19bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 19/25] fix: comparing with a nil value returns false instead
 of panicking

---
 compare.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..90cb486 100644
--- a/compare.go
+++ b/compare.go
@@ -45,6 +45,9 @@ func (v *V) LessThanOrEqual(another *V) bool {
 }
 
 func greaterThan(left, right *V) (result, ok bool) {
+	if left == nil || right == nil {
+		return false, false
+	}
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
@@ -54,6 +57,9 @@ func greaterThan(left, right *V) (result, ok bool) {
 }
 
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
+	if left == nil || right == nil {
+		return false, false
+	}
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
-- 
2.43.0


From 65d39416b27af4f6b035f27e0d4476e1fd309847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 20/25] fix: compare +Inf, -Inf and NaN by their values

They have no text, and were compared as zero: +Inf equaled to -Inf, and was
less than 1.
---
 compare.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compare.go b/compare.go
index 90cb486..2198837 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -51,6 +52,10 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNotFinite(left) || isNotFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -63,6 +68,10 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNotFinite(left) || isNotFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l >= r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -100,7 +109,16 @@ func (v *V) Equal(another *V) bool {
 	}
 }
 
+// isNotFinite tells whether a number is +Inf, -Inf or NaN, which has no text
+func isNotFinite(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
 func numberEqual(left, right *V) bool {
+	if isNotFinite(left) || isNotFinite(right) {
+		l, r := left.num.f64, right.num.f64
+		return l == r || (math.IsNaN(l) && math.IsNaN(r))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 3021a7c13d526da816eee73921ffe60e503f4d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 21/25] fix: IsFloat and IsInteger of values created from
 floats

NewFloat64(1.5) was told as an integer.
---
 new.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/new.go b/new.go
index e2cb548..8f75431 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -258,6 +259,10 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		// same as what parsing this text gets
+		v.num.floated = strings.ContainsAny(s, ".eE")
+	} else {
+		v.num.floated = true
 	}
 
 	return v
-- 
2.43.0


From 3b7733d8358a7e8bc280e3ffecf13d7542401b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 22/25] fix: StoB writes beyond the string header it converts

---
 internal/unsafe/unsafe.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/unsafe/unsafe.go b/internal/unsafe/unsafe.go
index 53f95ec..77432d7 100644
--- a/internal/unsafe/unsafe.go
+++ b/internal/unsafe/unsafe.go
@@ -1,7 +1,6 @@
 package unsafe
 
 import (
-	"reflect"
 	"unsafe"
 )
 
@@ -12,7 +11,10 @@ func BtoS(b []byte) string {
 
 // StoB string to []byte
 func StoB(s string) []byte {
-	sh := (*reflect.SliceHeader)(unsafe.Pointer(&s))
-	sh.Cap = sh.Len
-	return *(*[]byte)(unsafe.Pointer(sh))
+	// a slice header is larger than a string header, thus it should not be built in place
+	sh := struct {
+		string
+		Cap int
+	}{s, len(s)}
+	return *(*[]byte)(unsafe.Pointer(&sh))
 }
-- 
2.43.0


From b891cc68a40ef237fa934fad51c4048b858e33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:31 +0000
Subject: [PATCH 23/25] fix: deeply nested arrays or objects overflow the stack
 while unmarshaling

---
 unmarshal.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 037b1a5..41c75d0 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -10,6 +10,10 @@ import (
 
 // ================ OUTER UNMARSHAL ================
 
+// maxNestingDepth limits how deep arrays and objects may be nested, as encoding/json does. Without it, a long enough
+// sequence of '[' overflows the stack, which is fatal to the whole process.
+const maxNestingDepth = 10000
+
 // unmarshalWithIter parse bytes with unknown value type.
 func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	end := len(it)
@@ -21,10 +25,10 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	chr := it[offset]
 	switch chr {
 	case '{':
-		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '[':
-		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-':
 		var n *V
@@ -77,7 +81,10 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 
 // unmarshalArrayWithIterUnknownEnd is similar with unmarshalArrayWithIter, though should start with '[',
 // but it does not known where its ']' is
-func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if depth > maxNestingDepth {
+		return nil, -1, fmt.Errorf("%w, exceeded max nesting depth at Position %d", ErrRawBytesUnrecognized, offset)
+	}
 	offset++
 	arr := newArray(p)
 
@@ -100,7 +107,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset++
 
 		case '{':
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -108,7 +115,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset = sectEnd
 
 		case '[':
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -173,7 +180,10 @@ func appendToArr(v *V, child *V) {
 }
 
 // unmarshalObjectWithIterUnknownEnd unmarshal object from raw bytes. it[offset] must be '{'
-func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if depth > maxNestingDepth {
+		return nil, -1, fmt.Errorf("%w, exceeded max nesting depth at Position %d", ErrRawBytesUnrecognized, offset)
+	}
 	offset++
 	obj := newObject(p)
 
@@ -243,7 +253,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -255,7 +265,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
-- 
2.43.0


From ca8f6a2ee3c9e7eda656d799558974e7da074fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:05 +0000
Subject: [PATCH 24/25] fix: Import returns the error of a non-finite float
 with a string tag

---
 import_export.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index db2ff19..55ace78 100644
--- a/import_export.go
+++ b/import_export.go
@@ -310,8 +310,11 @@ func parseFloat64Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f64 := NewFloat64(f)
-		return NewString(f64.MustMarshalString()), nil
+		s, err := NewFloat64(f).MarshalString()
+		if err != nil {
+			return nil, err
+		}
+		return NewString(s), nil
 	}
 	return NewFloat64(f), nil
 }
@@ -322,8 +325,11 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f32 := NewFloat32(float32(f))
-		return NewString(f32.MustMarshalString()), nil
+		s, err := NewFloat32(float32(f)).MarshalString()
+		if err != nil {
+			return nil, err
+		}
+		return NewString(s), nil
 	}
 	return NewFloat32(float32(f)), nil
 }
-- 
2.43.0


From 2cd0986e8b4d07c784e3b9b33a64bafeb396066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:48 +0000
Subject: [PATCH 25/25] fix: do not let documents without values distort the
 predicted size per value

Each failed parse added its size and no values to the statistics, so that
the upper half of the statistics word could overflow; after 4 GiB of
garbage, and then 2^31 one-byte documents, the predicted size was zero and
Unmarshal panicked with an integer division by zero.
---
 jsonvalue_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index 6cdf4be..5e17a01 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -108,5 +108,8 @@ func (p *poolImpl) get() *V {
 }
 
 func (p *poolImpl) release() {
+	if p.actual == 0 {
+		return // no value has been parsed, there is nothing to learn about the size per value
+	}
 	internalAddPredictSizePerValue(p.rawSize, p.actual)
 }
-- 
2.43.0

