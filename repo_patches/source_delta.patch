From 3c547d3faa0d62c974fa64a6189b2dd98b3f6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 01/59] fix: JSON object keys containing an escape were cut at
 the first quote

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..9a3cb10 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,6 +235,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From 4bdd70946bd36b624c4bfe77010285c33e0a3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 02/59] fix: the JSON reader took every malformed word starting
 with n for nan and rejected nan itself

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 9a3cb10..3101ba1 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -478,7 +478,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -535,7 +535,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From c1e32933d9d21168b35633688e9b1a4a7fb978b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 03/59] fix: printing a JSON parse error panicked when the
 error position lies past the recorded data

---
 jsonparse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 3101ba1..82cdf09 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,10 +54,14 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
-	if l > err.InvalidIndex + 32{
-		l = err.InvalidIndex + 32
+	if err.InvalidIndex < l{
+		if l > err.InvalidIndex + 32{
+			l = err.InvalidIndex + 32
+		}
+		b = b[err.InvalidIndex:l]
+	}else{
+		b = nil
 	}
-	b = b[err.InvalidIndex:l]
 	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
 }
 
-- 
2.43.0


From ea35e964f688c702f218cadf3e02eba910772974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 04/59] fix: JSON numbers lost precision, exponents and range,
 and a number ending the text gave nothing at all

---
 jsonparse.go | 63 ++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 82cdf09..55eadb3 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -552,11 +552,10 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 }
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
+	numlen := len(b)
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
@@ -573,27 +572,35 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 			}
 			return b, errors.New("无效的Json格式")
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
-		}
-		return b, nil
+		numlen = i
+		break
+	}
+	if err = setJsonNum(b[:numlen],num);err != nil{
+		return b,err
+	}
+	return b[numlen:], nil
+}
+
+//整数不损失精度，其他的(小数，指数，超出int64范围的)用Double
+func setJsonNum(ns []byte,num *DxValue)error  {
+	str := DxCommonLib.FastByte2String(ns)
+	if v,err := strconv.ParseInt(str,10,64);err == nil{
+		num.SetInt(v)
+		return nil
+	}
+	v,err := strconv.ParseFloat(str,64)
+	if err != nil{
+		return errors.New("无效的Json格式")
 	}
-	return nil, nil
+	num.Reset(VT_Double)
+	num.SetDouble(v)
+	return nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
+	numlen := len(b)
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
 		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
@@ -609,20 +616,14 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 			}
 			return nil, b, errors.New("无效的Json格式")
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
-		}
-		return num, b, nil
+		numlen = i
+		break
+	}
+	num = c.getValue(VT_Int)
+	if err = setJsonNum(b[:numlen],num);err != nil{
+		return nil,b,err
 	}
-	return nil, nil, nil
+	return num, b[numlen:], nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From 22fabd9c62645cfd44f6f89210fc5247016249a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 05/59] fix: write only the escapes JSON defines and read
 strings back without URL-decoding them

---
 dxvalue.go     |   4 +-
 json_escape.go | 116 +++++++++++++++++++++++++++++++++++++++++++++++++
 jsonparse.go   |   8 ++--
 3 files changed, 122 insertions(+), 6 deletions(-)
 create mode 100644 json_escape.go

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..f3c0eaf 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -138,7 +138,7 @@ func (obj *VObject)UnEscapestrs()  {
 	}
 	for i := range obj.strkvs {
 		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		kv.K = unescapeJsonStr(kv.K)
 	}
 	obj.keysUnescaped = true
 }
@@ -749,7 +749,7 @@ func (v *DxValue)String()string  {
 	case VT_ExBinary:
 	case VT_RawString:
 		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
+		v.fstrvalue = unescapeJsonStr(v.fstrvalue)
 		return v.fstrvalue
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
diff --git a/json_escape.go b/json_escape.go
new file mode 100644
index 0000000..a69bb66
--- /dev/null
+++ b/json_escape.go
@@ -0,0 +1,116 @@
+package dxsvalue
+
+import (
+	"strconv"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+)
+
+const jsonHex = "0123456789abcdef"
+
+//按照RFC8259转义字符串，escapeUnicode指定是否将非ASCII字符转义为\uXXXX
+func escapeJsonStr(str string,escapeUnicode bool,dst []byte)[]byte  {
+	for i := 0;i<len(str);{
+		ch := str[i]
+		if ch < utf8.RuneSelf{
+			switch {
+			case ch == '"' || ch == '\\':
+				dst = append(dst,'\\',ch)
+			case ch == '\b':
+				dst = append(dst,'\\','b')
+			case ch == '\f':
+				dst = append(dst,'\\','f')
+			case ch == '\n':
+				dst = append(dst,'\\','n')
+			case ch == '\r':
+				dst = append(dst,'\\','r')
+			case ch == '\t':
+				dst = append(dst,'\\','t')
+			case ch < 0x20 || ch == 0x7f:
+				dst = appendJsonU16(dst,uint16(ch))
+			default:
+				dst = append(dst,ch)
+			}
+			i++
+			continue
+		}
+		r,size := utf8.DecodeRuneInString(str[i:])
+		if !escapeUnicode{
+			dst = append(dst,str[i:i+size]...)
+		}else if r1,r2 := utf16.EncodeRune(r);r1 != utf8.RuneError{
+			dst = appendJsonU16(appendJsonU16(dst,uint16(r1)),uint16(r2))
+		}else{
+			dst = appendJsonU16(dst,uint16(r))
+		}
+		i += size
+	}
+	return dst
+}
+
+func appendJsonU16(dst []byte,u uint16)[]byte  {
+	return append(dst,'\\','u',jsonHex[u>>12],jsonHex[u>>8&0xF],jsonHex[u>>4&0xF],jsonHex[u&0xF])
+}
+
+func jsonU16(s string)(u rune,ok bool)  {
+	if len(s) < 4{
+		return 0,false
+	}
+	v,err := strconv.ParseUint(s[:4],16,16)
+	return rune(v),err == nil
+}
+
+//还原Json字符串中的转义内容，不能识别的转义原样保留
+func unescapeJsonStr(str string)string  {
+	n := strings.IndexByte(str,'\\')
+	if n < 0{
+		return str
+	}
+	dst := append(make([]byte,0,len(str)),str[:n]...)
+	for i := n;i<len(str);i++{
+		if str[i] != '\\' || i + 1 == len(str){
+			dst = append(dst,str[i])
+			continue
+		}
+		i++
+		switch str[i] {
+		case '"','\\','/','\'':
+			dst = append(dst,str[i])
+		case 'b':
+			dst = append(dst,'\b')
+		case 'f':
+			dst = append(dst,'\f')
+		case 'n':
+			dst = append(dst,'\n')
+		case 'r':
+			dst = append(dst,'\r')
+		case 't':
+			dst = append(dst,'\t')
+		case 'a':
+			dst = append(dst,'\a')
+		case 'v':
+			dst = append(dst,'\v')
+		case 'u':
+			r,ok := jsonU16(str[i+1:])
+			if !ok{
+				dst = append(dst,'\\','u')
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(r){
+				r2 := rune(utf8.RuneError)
+				if strings.HasPrefix(str[i+1:],`\u`){
+					r2,_ = jsonU16(str[i+3:])
+				}
+				if r = utf16.DecodeRune(r,r2);r != utf8.RuneError{
+					i += 6
+				}
+			}
+			var buf [utf8.UTFMax]byte
+			dst = append(dst,buf[:utf8.EncodeRune(buf[:],r)]...)
+		default:
+			dst = append(dst,'\\',str[i])
+		}
+	}
+	return string(dst)
+}
diff --git a/jsonparse.go b/jsonparse.go
index 55eadb3..e8b9c33 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -671,7 +671,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			default:
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -687,7 +687,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
 		}
 
 		dst = append(dst,'"')
@@ -759,7 +759,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 			if escapeStyle != JSE_NoEscape{
 				if v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
+					dst = escapeJsonStr(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -795,7 +795,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
+			dst = escapeJsonStr(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
 		}
 		dst = append(dst,'"')
 	case VT_Array:
-- 
2.43.0


From c7a45cde8c6a3af7b5402635f42583b29d1fcd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 06/59] fix: clearing or reloading an uncached value recycled
 values that had been taken out of it

---
 cache.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cache.go b/cache.go
index bc456b3..67c7c40 100644
--- a/cache.go
+++ b/cache.go
@@ -15,13 +15,10 @@ type	ValueCache struct {
 
 func (c *ValueCache)getValue(t ValueType)*DxValue  {
 	if c == nil{
-		c = &ValueCache{
-			fisroot:	false,
-			Value:    make([]DxValue,0,8),
-		}
-		c.Value = append(c.Value, DxValue{DataType: t,
-			ownercache: c,})
-		return &c.Value[len(c.Value)-1]
+		//没有缓存的，各个值的生命周期相互独立
+		result := &DxValue{}
+		result.Reset(t)
+		return result
 	}
 	if cap(c.Value) > len(c.Value) {
 		c.Value = c.Value[:len(c.Value)+1]
-- 
2.43.0


From 2e03c1451a6b0a52f4706472e2715f7a517ec6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 07/59] fix: JSON-escaped keys leaked out of Visit,
 KeyNameByIndex and MergeWith, and plain keys were unescaped as if they came
 from JSON

---
 dxvalue.go   | 11 ++++++++---
 jsonparse.go |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index f3c0eaf..312b37e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -193,7 +193,7 @@ func (v *DxValue)Clear()  {
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
-	v.fobject.keysUnescaped = false
+	v.fobject.keysUnescaped = true
 	switch v.DataType {
 	case VT_Object:
 		for i := 0; i < len(v.fobject.strkvs);i++{
@@ -223,6 +223,7 @@ func NewObject(cached bool)*DxValue  {
 		DataType:   VT_Object,
 		ownercache: nil,
 	}
+	result.fobject.keysUnescaped = true
 	result.fobject.strkvs =  make([]strkv,0,8)
 	return result
 }
@@ -321,7 +322,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
-	v.fobject.keysUnescaped = false
+	v.fobject.keysUnescaped = true
 	switch dt {
 	case VT_Object:
 		if v.fobject.strkvs == nil{
@@ -413,6 +414,7 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
@@ -583,7 +585,8 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		v.fobject.UnEscapestrs()
+		fromv.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
@@ -1317,6 +1320,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1326,6 +1330,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
diff --git a/jsonparse.go b/jsonparse.go
index e8b9c33..aa1c2f2 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -78,6 +78,7 @@ func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail
 		}
 	}
 	result = c.getValue(VT_Object)
+	result.fobject.keysUnescaped = false
 	if c == nil{
 		c = result.ValueCache()
 	}
@@ -165,6 +166,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		tail = b[1:]
 		return
 	}
+	v.fobject.keysUnescaped = false
 	for{
 		kv := v.fobject.getKv()
 		oldb := b
-- 
2.43.0


From 0dc2291cb90b542fa57c8641b4b4a8ee802a24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 08/59] fix: number, bool and date readings of a JSON string
 used its undecoded form

---
 dxvalue.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 312b37e..528d493 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -547,7 +547,7 @@ func (v *DxValue)Int()int64  {
 	case VT_Float:
 		return int64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToIntDef(v.fstrvalue,0)
+		return DxCommonLib.StrToIntDef(v.String(),0)
 	}
 	return 0
 }
@@ -886,7 +886,7 @@ func (v *DxValue)Bool()bool  {
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-		return strings.EqualFold(v.fstrvalue,"true")
+		return strings.EqualFold(v.String(),"true")
 	}
 	return false
 }
@@ -919,7 +919,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.fstrvalue,0)
+		return DxCommonLib.StrToFloatDef(v.String(),0)
 	}
 	return 0
 }
@@ -937,7 +937,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.fstrvalue,0))
+		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
 	}
 	return 0
 }
@@ -960,11 +960,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	case VT_Int,VT_Double,VT_Float,VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
 		}
 	}
@@ -976,11 +976,11 @@ func (v *DxValue)GoTime()time.Time  {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return t
 		}
 	}
-- 
2.43.0


From f1bc4180f40645ca176352fa6ad4cee87ec652b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 09/59] fix: reading a decimal string as a number was inexact

---
 dxvalue.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 528d493..d23defb 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -919,7 +919,14 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.String(),0)
+		return strToFloat(v.String())
+	}
+	return 0
+}
+
+func strToFloat(s string)float64  {
+	if f,err := strconv.ParseFloat(s,64);err == nil{
+		return f
 	}
 	return 0
 }
@@ -937,7 +944,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
+		return float32(strToFloat(v.String()))
 	}
 	return 0
 }
-- 
2.43.0


From 904bc92bc415d512ea1984c3774ad2a446ff8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 10/59] fix: LoadFromJson kept the old type, ignored trailing
 garbage and left nil members behind on errors

---
 dxvalue.go   | 14 +++++++++++++-
 jsonparse.go |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index d23defb..51d23b4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -272,7 +272,19 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err == nil{
+		if b,skiplen := skipWB(tail);len(b) > 0{
+			err = &ErrorParseJson{
+				Type:         JET_Invalidate,
+				InvalidIndex: skiplen,
+				parseB:       tail,
+			}
+		}
+	}
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
diff --git a/jsonparse.go b/jsonparse.go
index aa1c2f2..f96a821 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -503,9 +503,11 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 		}
 	}
 	if b[0] == '{'{
+		v.Reset(VT_Object)
 		return parseJsonObj2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '[' {
+		v.Reset(VT_Array)
 		return parseJsonArray2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '"' {
-- 
2.43.0


From 6266b8f7db8c8e10ec0ebfb339a4b5e21bf05e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:53 +0000
Subject: [PATCH 11/59] fix: binaries, nan and inf were missing from JSON
 output or broke it, and binaries below 12 bytes panicked

---
 dxvalue.go   | 24 ++----------------------
 jsonparse.go | 50 +++++++++++++++++++++++++++++++++++---------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 51d23b4..00b7d73 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -740,28 +740,8 @@ func (v *DxValue)String()string  {
 		return v.fstrvalue
 	case VT_NULL:
 		return "null"
-	case VT_Binary:
-		var dst []byte
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-
-		case uint8(BSON_Decimal128):
-			dst = make([]byte,0,48)
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = make([]byte,0,128)
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
-		return DxCommonLib.FastByte2String(dst)
-	case VT_ExBinary:
+	case VT_Binary,VT_ExBinary:
+		return DxCommonLib.FastByte2String(appendBinaryStr(v,make([]byte,0,64)))
 	case VT_RawString:
 		v.DataType = VT_String
 		v.fstrvalue = unescapeJsonStr(v.fstrvalue)
diff --git a/jsonparse.go b/jsonparse.go
index f96a821..32ef5b7 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -734,10 +734,39 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,nanbyte...)
+	case VT_INF:
+		dst = append(dst,infbyte...)
+	case VT_Binary,VT_ExBinary:
+		dst = appendBinaryJson(v,dst)
 	}
 	return dst
 }
 
+//二进制没有对应的Json类型，除了Bson的ObjectID和Decimal128，其他的都写成字符串
+func appendBinaryJson(v *DxValue,dst []byte)[]byte  {
+	if v.DataType == VT_Binary && (v.ExtType == uint8(BSON_ObjectID) || v.ExtType == uint8(BSON_Decimal128)){
+		return appendBinaryStr(v,dst)
+	}
+	return append(appendBinaryStr(v,append(dst,'"')),'"')
+}
+
+func appendBinaryStr(v *DxValue,dst []byte)[]byte  {
+	flag,tail := "Bin(",")"
+	if v.DataType == VT_Binary{
+		switch v.ExtType {
+		case uint8(BSON_ObjectID):
+			flag,tail = `{"$oid":"`,`"}`
+		case uint8(BSON_Decimal128):
+			flag,tail = `{"Decimal128":"`,`"}`
+		}
+	}
+	dst = append(dst,flag...)
+	dst = append(dst,DxCommonLib.Bin2Hex(v.Binary())...)
+	return append(dst,tail...)
+}
+
 func Value2FormatJson(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	return formatValue(v,escapeStyle,escapeDatetime,dst,0)
 }
@@ -779,21 +808,8 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst,'}')
-	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-		case uint8(BSON_Decimal128):
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
+	case VT_Binary,VT_ExBinary:
+		dst = appendBinaryJson(v,dst)
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
@@ -844,6 +860,10 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,nanbyte...)
+	case VT_INF:
+		dst = append(dst,infbyte...)
 	}
 	return dst
 }
-- 
2.43.0


From 1b9c71b7008871f3376730e9e01dee6b662256c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 12/59] fix: date-times drifted by a second, by the zone offset
 or by a day, and JSON dates got a random sub-second part

---
 datetime.go      | 57 ++++++++++++++++++++++++++++++++++++++++++++++++
 dxvalue.go       | 12 +++++-----
 jsonparse.go     | 16 +++++++-------
 msgpackparse.go  | 12 +++++-----
 reflect_parse.go | 13 +++++------
 5 files changed, 83 insertions(+), 27 deletions(-)
 create mode 100644 datetime.go

diff --git a/datetime.go b/datetime.go
new file mode 100644
index 0000000..ac8deef
--- /dev/null
+++ b/datetime.go
@@ -0,0 +1,57 @@
+package dxsvalue
+
+import (
+	"github.com/suiyunonghen/DxCommonLib"
+	"math"
+	"strconv"
+	"strings"
+	"time"
+)
+
+//VT_DateTime中保存的是Delphi日期：本地时间距离1899-12-30的天数+当天的时间占一天的比例
+var delphiFirstDay = time.Date(1899,12,30,0,0,0,0,time.UTC).Unix() / DxCommonLib.SecsPerDay
+
+func time2Delphi(t time.Time)DxCommonLib.TDateTime  {
+	if t.IsZero(){
+		return 0
+	}
+	t = t.In(time.Local)
+	y,m,d := t.Date()
+	days := time.Date(y,m,d,0,0,0,0,time.UTC).Unix() / DxCommonLib.SecsPerDay - delphiFirstDay
+	secs := t.Hour() * 3600 + t.Minute() * 60 + t.Second()
+	ms := float64(secs) * 1000 + float64(t.Nanosecond()) / float64(time.Millisecond)
+	return DxCommonLib.TDateTime(float64(days) + ms / DxCommonLib.MSecsPerDay)
+}
+
+func delphi2Time(dt DxCommonLib.TDateTime)time.Time  {
+	days := math.Floor(float64(dt))
+	ms := int(math.Floor((float64(dt) - days) * DxCommonLib.MSecsPerDay + 0.5))
+	return time.Date(1899,12,30 + int(days),0,0,ms / 1000,ms % 1000 * int(time.Millisecond),time.Local)
+}
+
+func unixMs(t time.Time)int64  {
+	return t.Unix() * 1000 + int64(t.Nanosecond()) / int64(time.Millisecond)
+}
+
+//解析Json日期 /Date(1402384458000)/ 或者 Date(1224043200000+0800)，数字是距离1970-1-1 UTC的毫秒数，时区不影响时刻
+func parseJsonTime(s string)(dt DxCommonLib.TDateTime,ok bool)  {
+	if strings.HasPrefix(s,"/Date(") && strings.HasSuffix(s,")/"){
+		s = s[6:len(s)-2]
+	}else if strings.HasPrefix(s,"Date(") && strings.HasSuffix(s,")"){
+		s = s[5:len(s)-1]
+	}else{
+		return 0,false
+	}
+	if l := len(s);l > 5 && (s[l-5] == '+' || s[l-5] == '-'){
+		if _,err := strconv.ParseUint(s[l-4:],10,16);err != nil{
+			return 0,false
+		}
+		s = s[:l-5]
+	}
+	ms,err := strconv.ParseInt(s,10,64)
+	if err != nil{
+		return 0,false
+	}
+	secs := ms / 1000
+	return time2Delphi(time.Unix(secs,(ms - secs * 1000) * int64(time.Millisecond))),true
+}
diff --git a/dxvalue.go b/dxvalue.go
index 00b7d73..69f4f2e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -735,7 +735,7 @@ func (v *DxValue)String()string  {
 		return strconv.FormatFloat(float64(vf),'f',-1,64)
 	case VT_DateTime:
 		dt := *((*DxCommonLib.TDateTime)(unsafe.Pointer(&v.simpleV[0])))
-		return dt.ToTime().Format("2006-01-02 15:04:05")
+		return delphi2Time(dt).Format("2006-01-02 15:04:05")
 	case VT_String:
 		return v.fstrvalue
 	case VT_NULL:
@@ -960,11 +960,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
 		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2Delphi(t)
 		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2Delphi(t)
 		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
-			return DxCommonLib.Time2DelphiTime(t)
+			return time2Delphi(t)
 		}
 	}
 	return -1
@@ -973,7 +973,7 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 func (v *DxValue)GoTime()time.Time  {
 	switch v.DataType {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
-		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
+		return delphi2Time((DxCommonLib.TDateTime)(v.Double()))
 	case VT_String,VT_RawString:
 		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
@@ -1000,7 +1000,7 @@ func (v *DxValue)SetTime(value time.Time)  {
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value))
+	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(time2Delphi(value))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
diff --git a/jsonparse.go b/jsonparse.go
index 32ef5b7..36d6538 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -459,8 +459,8 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 		}
 		//先判断一下是否是Json的日期格式
 		var result *DxValue
-		dt := DxCommonLib.ParserJsonTime(ss)
-		if dt < 0{
+		dt,isTime := parseJsonTime(ss)
+		if !isTime{
 			result = c.getValue(VT_RawString)
 			result.fstrvalue = ss
 		}else{
@@ -516,8 +516,8 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 			return tail, err
 		}
 		//先判断一下是否是Json的日期格式
-		dt := DxCommonLib.ParserJsonTime(ss)
-		if dt < 0{
+		dt,isTime := parseJsonTime(ss)
+		if !isTime{
 			v.Reset(VT_RawString)
 			v.fstrvalue = ss
 		}else{
@@ -723,12 +723,12 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := unixMs(v.GoTime())
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,v.GoTime().Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
@@ -849,12 +849,12 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	case VT_DateTime:
 		if escapeDatetime{
 			dst = append(dst,"\"/Date("...)
-			unixs := int64(v.DateTime().ToTime().Unix()*1000)
+			unixs := unixMs(v.GoTime())
 			dst = strconv.AppendInt(dst,unixs,10)
 			dst = append(dst,")/\""...)
 		}else{
 			dst = append(dst,'"')
-			dst = append(dst,v.DateTime().ToTime().Format("2006-01-02 15:04:05")...)
+			dst = append(dst,v.GoTime().Format("2006-01-02 15:04:05")...)
 			dst = append(dst,'"')
 		}
 
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..6218808 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -301,19 +301,19 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
 				t := time.Unix(int64(sec), 0)
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2Delphi(t)))
 			case CodeFixExt8:
 				//64位时间格式
 				sec := binary.BigEndian.Uint64(b[1:])
 				nsec := int64(sec >> 34)
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2Delphi(t)))
 			default:
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
-				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				result.SetDouble(float64(time2Delphi(t)))
 			}
 		}else{
 			result = c.getValue(VT_ExBinary)
@@ -459,19 +459,19 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
 				t := time.Unix(int64(sec), 0)
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2Delphi(t)))
 			case CodeFixExt8:
 				//64位时间格式
 				sec := binary.BigEndian.Uint64(b[1:])
 				nsec := int64(sec >> 34)
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2Delphi(t)))
 			default:
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
-				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
+				v.SetDouble(float64(time2Delphi(t)))
 			}
 		}else{
 			if sharebinary{
diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..658d32a 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -2,7 +2,6 @@ package dxsvalue
 
 import (
 	"encoding/json"
-	"github.com/suiyunonghen/DxCommonLib"
 	"reflect"
 	"strings"
 	"time"
@@ -242,9 +241,9 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetDouble(float64(time2Delphi(realv)))
 	case *time.Time:
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetDouble(float64(time2Delphi(*realv)))
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -515,9 +514,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			v.SetKeyValue(Name,valueFalse)
 		}
 	case time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(time2Delphi(realv)))
 	case *time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(time2Delphi(*realv)))
 	case float32:
 		v.SetKeyCached(Name,VT_Float,cache).SetFloat(realv)
 	case *float32:
@@ -751,9 +750,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			v.SetIndexValue(idx,valueFalse)
 		}
 	case time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(time2Delphi(realv)))
 	case *time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(time2Delphi(*realv)))
 	case float32:
 		v.SetIndexCached(idx,VT_Float,cache).SetFloat(realv)
 	case *float32:
-- 
2.43.0


From a914cd2ac0f10437a6aca8f0479e649a3513d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 13/59] fix: setting a time on a double left it a plain number

---
 dxvalue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 69f4f2e..5b033fe 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -997,14 +997,14 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
-	if v.DataType != VT_Double && v.DataType != VT_DateTime{
+	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
 	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(time2Delphi(value))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
-	if v.DataType != VT_Double && v.DataType != VT_DateTime{
+	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
 	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(value)
-- 
2.43.0


From 712ee485af5ae1493a2ab108e573075aad8b33a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:17 +0000
Subject: [PATCH 14/59] fix: truncated MsgPack maps and extensions panicked

---
 msgpackparse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 6218808..6b50761 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -34,7 +34,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if maplen == 0{
 		return b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) > 0 && !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -72,7 +72,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) > 0 && !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -290,7 +290,7 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
@@ -449,7 +449,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-- 
2.43.0


From 4bae29def4ac3cd751436eed1518a3a205b2bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 15/59] fix: MsgPack ext8 data of type -1 that is no timestamp
 was read as one, beyond its end

---
 msgpackparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 6b50761..ad96fbf 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -294,7 +294,7 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -453,7 +453,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			switch code {
 			case CodeFixExt4:
-- 
2.43.0


From 35c889226ec85a5775e3794f20c5ebe806fda266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 16/59] fix: an unused MsgPack code gave neither a value nor an
 error

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index ad96fbf..a780712 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -323,6 +323,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		return nil,b,ErrInvalidateCode
 	}
 	return
 }
@@ -480,6 +482,8 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		return b,ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From caebedd48710652af08327fbce7fe46cca65644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:31 +0000
Subject: [PATCH 17/59] fix: MsgPack extensions of 1, 2, 4, 8 or 16 bytes got
 two headers, empty ones no type

---
 msgpack_value.go | 6 ++++++
 msgpackparse.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..72e6061 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -178,7 +178,13 @@ func writeExtCode(exlen int,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeFixExt8))
 	case 16:
 		dst = append(dst,byte(CodeFixExt16))
+	default:
+		return writeVarExtCode(exlen,dst)
 	}
+	return dst
+}
+
+func writeVarExtCode(exlen int,dst []byte)[]byte  {
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
 	}else if exlen < 65536 {
diff --git a/msgpackparse.go b/msgpackparse.go
index a780712..1fa8b96 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -575,6 +575,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = writeExtCode(blen,dst)
 		//直接写入内容
 		dst = append(dst,v.fbinary...)
+		if len(v.fbinary) == 0{
+			dst = append(dst,0) //还没有设置类型
+		}
 	case VT_Binary:
 		blen := len(v.fbinary)
 		dst = writeBinCode(blen,dst)
-- 
2.43.0


From 8ff9ac126e70146009461b83757aa06881b8ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 18/59] fix: strings and keys read from JSON were written to
 MsgPack in escaped form

---
 msgpackparse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 1fa8b96..bc0b966 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -522,6 +522,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -591,9 +592,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
-		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		str := v.String()
+		dst = writeStrCode(len(str),dst)
+		dst = append(dst,DxCommonLib.FastString2Byte(str)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From 6dd4eb87c2e13ca58348956f9b71e437b61853c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:41 +0000
Subject: [PATCH 19/59] fix: nan and inf were left out of MsgPack output,
 shifting everything after them

---
 msgpackparse.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index bc0b966..b7166e8 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -587,8 +587,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		u32 := math.Float32bits(v.Float())
 		dst = append(dst,byte(CodeFloat),byte(u32 >> 24),byte(u32 >> 16),byte(u32 >> 8),byte(u32))
 	case VT_Double:
-		u64 := math.Float64bits(v.Double())
-		dst = append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
+		dst = writeDouble(v.Double(),dst)
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
@@ -601,6 +600,15 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN:
+		dst = writeDouble(math.NaN(),dst)
+	case VT_INF:
+		dst = writeDouble(math.Inf(1),dst)
 	}
 	return dst
+}
+
+func writeDouble(f float64,dst []byte)[]byte  {
+	u64 := math.Float64bits(f)
+	return append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
 }
\ No newline at end of file
-- 
2.43.0


From fb7eaba255436b79557cda877bbc71532c3789a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:45 +0000
Subject: [PATCH 20/59] fix: LoadFromMsgPack kept the old type of the value it
 loads into

---
 dxvalue.go      | 3 +++
 msgpackparse.go | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5b033fe..5566444 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -263,6 +263,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,err := parseMsgPack2Value(b,v,sharebinary)
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
diff --git a/msgpackparse.go b/msgpackparse.go
index b7166e8..c37a4d0 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,6 +31,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -340,6 +341,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
@@ -413,6 +415,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -436,6 +439,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -457,6 +461,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -476,6 +481,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(time2Delphi(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From 50999230e9a5039a4fe3d1b7286c8a563a7e2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:17 +0000
Subject: [PATCH 21/59] fix: a reset or cleared number kept its old bits, so
 new values started with former content

---
 dxvalue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 5566444..f92c7f4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -190,9 +190,14 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
+	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = true
 	switch v.DataType {
 	case VT_Object:
@@ -337,6 +342,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = true
 	switch dt {
 	case VT_Object:
-- 
2.43.0


From e16eed0b18dc345ecfe17957b8842626f4f00ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 22/59] fix: Bool of a negative 32-bit float was true

---
 dxvalue.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index f92c7f4..32b45a2 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -880,12 +880,11 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 }
 
 func (v *DxValue)Bool()bool  {
-	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
-	}
 	switch v.DataType {
 	case VT_True:
 		return true
+	case VT_Int,VT_Float,VT_Double,VT_DateTime:
+		return v.Double() > 0
 	case VT_String,VT_RawString:
 		return strings.EqualFold(v.String(),"true")
 	}
-- 
2.43.0


From 18dd0daec15069ee08605e993b97076544103ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 23/59] fix: clones and copies lost binary data and extension
 types and shared mutable true, false, nan and inf nodes

---
 dxvalue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 32b45a2..59332de 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -574,10 +574,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v == nil || v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -585,6 +586,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append(rootv.fbinary,v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
@@ -622,7 +625,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v == fromv || v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -641,6 +648,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append(v.fbinary,fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 327886121d43ec9c2c55da71fe16b59789004b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 24/59] fix: Equal ignored array lengths, string case, escapes,
 extension types and the sign of zero, and confused large integers with
 doubles

---
 dxvalue.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 59332de..fe65568 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -509,18 +509,28 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
-			return v.Double() == value.Double()
+			if value.DataType == VT_Int{
+				v,value = value,v
+			}
+			d := value.Double()
+			//整数和浮点数比较，大整数转换成浮点数会丢失精度
+			return v.Double() == d && (v.DataType != VT_Int || d < math.MaxInt64 && int64(d) == v.Int())
 		}
 		return false
 	}
 	switch v.DataType {
-	case VT_String,VT_RawString:
+	case VT_String:
 		return v.fstrvalue == value.fstrvalue
+	case VT_RawString:
+		return unescapeJsonStr(v.fstrvalue) == unescapeJsonStr(value.fstrvalue)
 	case VT_Binary,VT_ExBinary:
-		return bytes.Compare(v.fbinary,value.fbinary) == 0
+		return v.ExtType == value.ExtType && v.BinExtType() == value.BinExtType() && bytes.Equal(v.Binary(),value.Binary())
+	case VT_Float,VT_Double,VT_DateTime:
+		d1,d2 := v.Double(),value.Double()
+		return d1 == d2 || d1 != d1 && d2 != d2
 	case VT_Object:
 		if len(v.fobject.strkvs) != len(value.fobject.strkvs){
 			return false
@@ -534,7 +544,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From d330398c635ab677e8558457c81a164b5d0d99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 25/59] fix: setters, loads and copies applied to the shared
 true, false, null, nan and inf values altered them everywhere

---
 dxvalue.go | 57 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index fe65568..00e93f6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("the value is a readonly constant")
 )
 
 
@@ -263,6 +265,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -275,6 +280,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -297,6 +305,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -328,6 +339,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -614,6 +628,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -741,6 +758,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -835,6 +855,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -1024,6 +1047,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1031,6 +1057,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1153,6 +1182,9 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp) //固定值不能修改，返回一个独立的值
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1165,7 +1197,7 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 	idx := v.fobject.indexByName(Name)
 	if idx >= 0{
 		result := v.fobject.strkvs[idx].V
-		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
+		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
 		}else if result.DataType != tp {
@@ -1186,6 +1218,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1207,6 +1242,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1244,22 +1282,20 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp) //固定值不能修改，返回一个独立的值
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
 	l := len(v.farr)
 	if idx >= 0 && idx < l{
 		result := v.farr[idx]
-		if result != nil && result.DataType != tp{
-			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
-				result = c.getValue(tp)
-				v.farr[idx] = result
-			}else if result.DataType != tp {
-				result.Reset(tp)
-			}
-		}else if result == nil{
+		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.farr[idx] = result
+		}else if result.DataType != tp{
+			result.Reset(tp)
 		}
 		return result
 	}else{
@@ -1270,6 +1306,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 70f1ebcc6b57b68d54ed1815072b8912441ce370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:48 +0000
Subject: [PATCH 26/59] fix: MergeWith stopped at the first nested conflict,
 reported wrong paths, did not unite nested arrays and altered shared
 constants

---
 dxvalue.go | 82 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 00e93f6..377dafa 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -447,52 +447,45 @@ const(
 
 type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
-func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
-	mergeOp := MO_Normal
+func mergeObject(parentpath string,v,value *DxValue,mergefunc MergeFunc)  {
 	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
-		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
-		if idx != -1{
-			if mergefunc!=nil{
-				if len(parentpath) != 0{
-					parentpath = append(parentpath,'/')
-				}
-				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
-			}
-			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
-				}else{
-					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
-				}
-			}else if mergeOp == MO_Replace{
-				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
-				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
-			}
-		}else{
+		key,newv := value.fobject.strkvs[i].K,value.fobject.strkvs[i].V
+		idx := v.fobject.indexByName(key)
+		if idx == -1{
 			//没有，直接增加
-			v.SetKeyValue(value.fobject.strkvs[i].K,value.fobject.strkvs[i].V.clone(nil))
+			v.SetKeyValue(key,newv.clone(nil))
+			continue
+		}
+		oldv := v.fobject.strkvs[idx].V
+		mergeOp := MO_Normal
+		keyPath := key
+		if parentpath != ""{
+			keyPath = parentpath + "/" + key
+		}
+		if mergefunc != nil{
+			mergeOp = mergefunc(keyPath,oldv,newv)
+		}
+		if mergeOp == MO_Normal{
+			if oldv.DataType == VT_Object && newv.DataType == VT_Object{
+				mergeObject(keyPath,oldv,newv,mergefunc)
+			}else if oldv.DataType == VT_Array && newv.DataType == VT_Array{
+				mergeArray(oldv,newv)
+			}else{
+				//合并成数组
+				pair := NewArray(false)
+				pair.farr = append(pair.farr,oldv,newv.clone(nil))
+				v.SetKeyValue(key,pair)
+			}
+		}else if mergeOp == MO_Replace{
+			//直接替换
+			v.SetKeyValue(key,newv.clone(nil))
 		}
 	}
-	return parentpath
 }
 
-func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
-	if value == nil || v == nil || value.DataType != v.DataType || v.DataType > VT_Array{
-		return
-	}
-	if v.DataType == VT_Object{
-		mergeObject(make([]byte,0,16),v,value,mergefunc)
-		return
-	}
-
-	//直接将两个数组合并
+//直接将两个数组合并
+func mergeArray(v,value *DxValue)  {
 	var willAdd []*DxValue
 	for i := 0;i<len(value.farr);i++{
 		newv := value.farr[i]
@@ -512,6 +505,17 @@ func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
 	}
 }
 
+func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
+	if value == nil || v == nil || value.DataType != v.DataType || v.DataType > VT_Array{
+		return
+	}
+	if v.DataType == VT_Object{
+		mergeObject("",v,value,mergefunc)
+		return
+	}
+	mergeArray(v,value)
+}
+
 func (v *DxValue)Equal(value *DxValue)bool  {
 	if v == nil && value == nil{
 		return true
-- 
2.43.0


From 9cb7e53d120896603ab8f144e23b054904ec7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:08 +0000
Subject: [PATCH 27/59] fix: setting a binary or extension type wrote into
 buffers shared with the caller

---
 bin_value.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..6bdfea4 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -29,11 +29,8 @@ func (v *DxValue)BinLen()int  {
 
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
-		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
-		}else{
-			v.fbinary = append(v.fbinary,t)
-		}
+		//数据可能和外部共享，不能原地修改
+		v.fbinary = append([]byte{t},v.Binary()...)
 	}
 }
 
@@ -55,18 +52,17 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-				v.fbinary = append(v.fbinary[:0],b...)
+				v.fbinary = append([]byte(nil),b...)
 			}else{
 				v.fbinary = b
 			}
-- 
2.43.0


From c7816cadc1893786f4ddb28a03783b8b54a49ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 28/59] fix: SaveBinaryToFile opened the file read-only and
 could never write it

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 6bdfea4..483a637 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -72,7 +72,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From 1631e96035c433c9b6a128789199af6ea2c7e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 29/59] fix: AddFrom duplicated keys that were already there,
 and never ended when adding an array to itself

---
 dxvalue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 377dafa..93011a7 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -643,13 +643,16 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		v.fobject.UnEscapestrs()
 		fromv.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+				continue //已经存在的不能重复
+			}
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
 		}
 	case VT_Array:
 		c := v.ownercache
-		for i := 0;i < len(fromv.farr);i++{
+		for i,l := 0,len(fromv.farr);i < l;i++{
 			v.farr = append(v.farr, fromv.farr[i].clone(c))
 		}
 	}
-- 
2.43.0


From 350ab3689de781dc0020a8de70e6b02a688ff854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 30/59] fix: malformed BSON panicked or was accepted, and empty
 documents and arrays were rejected

---
 bson_parse.go | 80 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 21 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..b9ce4f9 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -17,25 +17,36 @@ var(
 	ErrBadBSONDocLen = errors.New("BSONDocument size invalidate")
 )
 
+//读取文档长度，文档至少有长度和结束符
+func bsonDocLen(b []byte)(int,error)  {
+	if len(b) < 5{
+		return 0,ErrBadBSONDocLen
+	}
+	docLen := int(int32(binary.LittleEndian.Uint32(b[:4])))
+	if docLen < 5 || docLen > len(b){
+		return docLen,ErrBadBSONDocLen
+	}
+	if b[docLen-1] != 0{
+		return docLen,ErrInvalidBSON
+	}
+	return docLen,nil
+}
+
 /**
 BSON文档（对象）由一个有序的元素列表构成。每个元素由一个字段名、一个类型和一个值组成。字段名为字符串。
 所以BSON文档必然是Object
  */
 func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
-	if len(b) <= 4{
-		return 0,0,ErrBadBSONDocLen
-	}
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	if docLen,err = bsonDocLen(b);err != nil{
+		return docLen,0,err
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -80,26 +91,25 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		}
 
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
+	}
+	if parseIndex != docLen - 1{
+		return docLen,parseIndex,ErrInvalidBSON
 	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
-	//文档长度
-	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
-		return docLen,0,ErrBadBSONDocLen
+	if docLen,err = bsonDocLen(b);err != nil{
+		return docLen,0,err
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,14 +158,36 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
+	}
+	if parseIndex != docLen - 1{
+		return docLen,parseIndex,ErrInvalidBSON
 	}
 	return docLen,parseIndex,nil
 }
 
+//各种类型的值至少需要的字节数
+func bsonMinLen(btype BsonType)int  {
+	switch btype {
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		return 8
+	case BSON_String,BSON_Binary:
+		return 5
+	case BSON_Int32:
+		return 4
+	case BSON_ObjectID:
+		return 12
+	case BSON_Boolean:
+		return 1
+	case BSON_Decimal128:
+		return 16
+	}
+	return 0
+}
+
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	if len(b) < bsonMinLen(btype){
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -163,8 +195,11 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_String:
 		//UTF8
-		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
+		valueLen = int(int32(binary.LittleEndian.Uint32(b[:4])))
 		parseIndex += 4
+		if valueLen < 1 || valueLen > len(b) - parseIndex || b[parseIndex+valueLen-1] != 0{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		start := parseIndex
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
@@ -177,10 +212,13 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		value.DataType = VT_ExBinary
 		value.ExtType = uint8(btype)
 		//先读取长度
-		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
+		valueLen = int(int32(binary.LittleEndian.Uint32(b[:4])))
 		parseIndex = 4
 		//子类型
 		b = b[parseIndex:]
+		if valueLen < 0 || valueLen > len(b) - 1{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		subType := b[0]
 		if subType == 2{
 			parseIndex ++
-- 
2.43.0


From 7f6c380db4ac109afde46973001fbce576b7fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 31/59] fix: BSON binaries were read with their subtype byte or
 a wrong offset as content

---
 bson_parse.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index b9ce4f9..a377e08 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -209,8 +209,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			value.SetString(string(b[start:parseIndex - 1]))
 		}
 	case BSON_Binary:
-		value.DataType = VT_ExBinary
-		value.ExtType = uint8(btype)
 		//先读取长度
 		valueLen = int(int32(binary.LittleEndian.Uint32(b[:4])))
 		parseIndex = 4
@@ -220,27 +218,28 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			return valueLen,parseIndex,ErrInvalidBSON
 		}
 		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
+		parseIndex += valueLen + 1
+		switch BsonBinaryType(subType) {
+		case BinaryGeneric:
+			value.Reset(VT_Binary)
+			b = b[1:valueLen+1]
+		case BinaryBinaryOld:
+			//旧格式内容前面还有一个长度
+			if valueLen < 4 || int(int32(binary.LittleEndian.Uint32(b[1:5]))) != valueLen - 4{
 				return valueLen,parseIndex,ErrInvalidBSON
 			}
-			value.DataType = VT_Binary
-			value.ExtType = 0
-		}else{
+			value.Reset(VT_Binary)
+			b = b[5:valueLen+1]
+		default:
 			//VT_ExBinary要将subType带上
-			valueLen ++
+			value.Reset(VT_ExBinary)
+			value.ExtType = uint8(btype)
+			b = b[:valueLen+1]
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append([]byte(nil),b...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
-- 
2.43.0


From 67ec3d8a9135aa68bea986c905acea596ba2e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 32/59] fix: negative BSON int32 values were read as large
 positive ones

---
 bson_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index a377e08..9e0889c 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -269,7 +269,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From af4bd02b7e464337f4e2d2f2d9f4db4c28eaad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:34 +0000
Subject: [PATCH 33/59] fix: BSON date-times beyond 292 years from 1970
 overflowed

---
 bson_parse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 9e0889c..16eff9b 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -258,8 +258,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 1,1,nil
 	case BSON_DateTime:
 		//Unix 纪元(1970 年 1 月 1 日)以来的毫秒数
-		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
-		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
+		vunix := int64(binary.LittleEndian.Uint64(b[:8]))
+		value.SetTime(time.Unix(vunix / 1000,vunix % 1000 * int64(time.Millisecond)))
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
@@ -429,8 +429,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
 		dst = putLittI64(u64,dst)
 	case VT_DateTime:
-		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
-		dst = putLittI64(unixMillisecond,dst)
+		dst = putLittI64(unixMs(v.GoTime()),dst)
 	case VT_Binary:
 		switch v.ExtType {
 		case uint8(BSON_ObjectID):
-- 
2.43.0


From 078edc2486c0c5cb690a5ee8405391d57709bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 34/59] fix: BSON elements of unsupported types were taken for
 empty ones, misreading everything after them

---
 bson_parse.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 16eff9b..25edb0c 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -15,6 +15,7 @@ var(
 	ErrInvalidBSON = errors.New("invalidate bson format")
 	ErrInvalidArrayBsonIndex = errors.New("invalidate bson Array index")
 	ErrBadBSONDocLen = errors.New("BSONDocument size invalidate")
+	ErrUnSupportBsonType = errors.New("unSupport Bson element type")
 )
 
 //读取文档长度，文档至少有长度和结束符
@@ -263,11 +264,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
 	case BSON_Int32:
 		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
@@ -287,6 +283,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 16,16,nil
 	case BSON_MinKey:
 	case BSON_MaxKey:
+	default:
+		//BSON_Regex，BSON_DBPointer，BSON_JavaScript，BSON_Symbol，BSON_CodeWithScope等不支持的类型
+		return 0,0,ErrUnSupportBsonType
 	}
 	return
 }
-- 
2.43.0


From cf6bf2132b681a4132c127ce0010ab3dba050dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 35/59] fix: 32-bit floats were written to BSON as garbage, nan
 and inf without a type

---
 bson_parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 25edb0c..82bb721 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -425,8 +425,11 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	case VT_DateTime:
 		dst = putLittI64(unixMs(v.GoTime()),dst)
 	case VT_Binary:
@@ -487,7 +490,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-- 
2.43.0


From dbda7b08410f638e793e03158fbbc80d4bac3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:48 +0000
Subject: [PATCH 36/59] fix: writing an object id or decimal whose content had
 been replaced panicked or gave malformed BSON

---
 bson_parse.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 82bb721..b7e1047 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -433,11 +433,9 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	case VT_DateTime:
 		dst = putLittI64(unixMs(v.GoTime()),dst)
 	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,v.fbinary[:12]...)
-		case uint8(BSON_Decimal128):
-			dst = append(dst,v.fbinary[:16]...)
+		switch bsonBinaryType(v) {
+		case BSON_ObjectID,BSON_Decimal128:
+			dst = append(dst,v.fbinary...)
 		default:
 			//先写入长度
 			dst = putLittI32(int32(len(v.fbinary)),dst)
@@ -447,7 +445,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			dst = append(dst,v.fbinary...)
 		}
 	case VT_ExBinary:
-		if v.ExtType == byte(BSON_Binary){
+		if v.ExtType == byte(BSON_Binary) && len(v.fbinary) > 0{
 			//实际长度需要减去一个子类型占据的位
 			dst = putLittI32(int32(len(v.fbinary)-1),dst)
 		}else{
@@ -467,6 +465,19 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	return dst
 }
 
+//二进制值在BSON中的类型，ObjectID和Decimal128长度固定，内容长度不符的只能是普通二进制
+func bsonBinaryType(v *DxValue)BsonType  {
+	if v.DataType == VT_Binary{
+		if v.ExtType == uint8(BSON_ObjectID) && len(v.fbinary) == 12{
+			return BSON_ObjectID
+		}
+		if v.ExtType == uint8(BSON_Decimal128) && len(v.fbinary) == 16{
+			return BSON_Decimal128
+		}
+	}
+	return BSON_Binary
+}
+
 func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	if element == nil{
 		dst = append(dst,byte(BSON_Null))
@@ -495,19 +506,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
 	case VT_Binary,VT_ExBinary:
-		if element.ExtType != 0{
-			dst = append(dst,element.ExtType)
-		}else{
-			dst = append(dst,byte(BSON_Binary))
-		}
-		/*switch element.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,byte(BSON_ObjectID))
-		case uint8(BSON_Decimal128):
-			dst = append(dst,byte(BSON_Decimal128))
-		default:
-			dst = append(dst,byte(BSON_Binary))
-		}*/
+		dst = append(dst,byte(bsonBinaryType(element)))
 	case VT_NULL:
 		dst = append(dst,byte(BSON_Null))
 	case VT_True,VT_False:
-- 
2.43.0


From 93370483205d8c5faec01983dbe94eef17f06d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:52 +0000
Subject: [PATCH 37/59] fix: LoadFromBson kept the old type of the value it
 loads into and half-loaded content on errors

---
 dxvalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 93011a7..c35a11d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -346,7 +346,11 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	if err != nil{
+		v.Clear()
+	}
 	return  err
 }
 
-- 
2.43.0


From ad3944d12b9e0aff0f760b77d9e899bfc8b40ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:28 +0000
Subject: [PATCH 38/59] fix: nil pointers, interfaces and map values panicked
 or were dropped when converting Go values

---
 reflect_parse.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 658d32a..4b86f5d 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -185,10 +185,20 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//空接口和空指针描述的是null
+func isNilValue(value interface{})bool  {
+	reflectv := reflect.ValueOf(value)
+	return !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
+	if isNilValue(value){
+		v.Reset(VT_NULL)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetInt(int64(realv))
@@ -354,6 +364,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid:
+					v.SetKeyCached(sfield.Name,VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
@@ -404,6 +416,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid:
+					v.SetKeyCached(kv.String(),VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -454,6 +468,10 @@ func (v *DxValue)SetValue(value interface{})  {
 }
 
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetKeyCached(Name,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -610,6 +628,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid:
+					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
@@ -650,6 +670,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid:
+					newv.SetKeyCached(kv.String(),VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -690,6 +712,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 }
 
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	if isNilValue(value){
+		v.SetIndexCached(idx,VT_NULL,cache)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
@@ -840,6 +866,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
+				case reflect.Invalid:
+					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
@@ -880,6 +908,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					rvalue = rvalue.Elem()
 				}
 				switch rvalue.Kind() {
+				case reflect.Invalid:
+					newv.SetKeyCached(kv.String(),VT_NULL,cache)
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
 				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
-- 
2.43.0


From bb6f2011ade490f0e05fcd9e3cc6dc5ba6e743af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:32 +0000
Subject: [PATCH 39/59] fix: SetValue turned a time into a plain number and
 ignored byte slices

---
 reflect_parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 4b86f5d..3e848a7 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -251,9 +251,9 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
-		v.SetDouble(float64(time2Delphi(realv)))
+		v.SetTime(realv)
 	case *time.Time:
-		v.SetDouble(float64(time2Delphi(*realv)))
+		v.SetTime(*realv)
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -263,8 +263,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
-- 
2.43.0


From a3bf37bf3f6793ebedc7bda4ea7209bab588adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 40/59] fix: unsigned struct fields panicked

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 3e848a7..1c533bd 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -368,9 +368,10 @@ func (v *DxValue)SetValue(value interface{})  {
 				switch fv.Kind() {
 				case reflect.Invalid:
 					v.SetKeyCached(sfield.Name,VT_NULL,cache)
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -632,9 +633,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				switch fv.Kind() {
 				case reflect.Invalid:
 					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -870,9 +872,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				switch fv.Kind() {
 				case reflect.Invalid:
 					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 300d845a2aafad4a988c30245c640bfa1619b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:11 +0000
Subject: [PATCH 41/59] fix: empty maps were ignored, and containers set over
 existing ones kept the old members

---
 reflect_parse.go | 82 ++++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 1c533bd..bfa46d9 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -402,6 +402,9 @@ func (v *DxValue)SetValue(value interface{})  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.Reset(VT_Object)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -470,6 +473,19 @@ func (v *DxValue)SetValue(value interface{})  {
 	}
 }
 
+//要整个替换的节点，已经存在的内容不能保留
+func (v *DxValue)emptyKey(Name string,tp ValueType,cache *ValueCache)*DxValue  {
+	result := v.SetKeyCached(Name,tp,cache)
+	result.Reset(tp)
+	return result
+}
+
+func (v *DxValue)emptyIndex(idx int,tp ValueType,cache *ValueCache)*DxValue  {
+	result := v.SetIndexCached(idx,tp,cache)
+	result.Reset(tp)
+	return result
+}
+
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	if isNilValue(value){
 		v.SetKeyCached(Name,VT_NULL,cache)
@@ -547,56 +563,56 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	case *float64:
 		v.SetKeyCached(Name,VT_Double,cache).SetDouble(*realv)
 	case []byte:
-		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(realv,true)
+		v.emptyKey(Name,VT_Binary,cache).SetBinary(realv,true)
 	case *[]byte:
-		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
+		v.emptyKey(Name,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
-		newv := v.SetKeyCached(Name,VT_Object,v.ownercache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.emptyKey(Name,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.emptyKey(Name,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.emptyKey(Name,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.emptyKey(Name,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.emptyKey(Name,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -623,7 +639,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				v.SetKeyCached(Name,VT_DateTime,cache).SetTime(*(reflectv.Interface().(*time.Time)))
 				return
 			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv := v.emptyKey(Name,VT_Object,cache)
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -658,6 +674,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.emptyKey(Name,VT_Object,cache)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -667,7 +686,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			if kv.Kind() != reflect.String{
 				return
 			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv := v.emptyKey(Name,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -699,7 +718,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				}
 			}
 		case reflect.Slice:
-			newv := v.SetKeyCached(Name,VT_Array,cache)
+			newv := v.emptyKey(Name,VT_Array,cache)
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
@@ -792,56 +811,56 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 	case *float64:
 		v.SetIndexCached(idx,VT_Double,cache).SetDouble(*realv)
 	case []byte:
-		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(realv,true)
+		v.emptyIndex(idx,VT_Binary,cache).SetBinary(realv,true)
 	case *[]byte:
-		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
+		v.emptyIndex(idx,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
-		newv := v.SetIndexCached(idx,VT_Object,v.ownercache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.emptyIndex(idx,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.emptyIndex(idx,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.emptyIndex(idx,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.emptyIndex(idx,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.emptyIndex(idx,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -862,7 +881,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
-			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv := v.emptyIndex(idx,VT_Object,cache)
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -897,6 +916,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.emptyIndex(idx,VT_Object,cache)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -906,7 +928,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			if kv.Kind() != reflect.String{
 				return
 			}
-			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv := v.emptyIndex(idx,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -939,7 +961,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			}
 		case reflect.Slice:
 			//数组的话
-			newarr := v.SetIndexCached(idx,VT_Array,cache)
+			newarr := v.emptyIndex(idx,VT_Array,cache)
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
-- 
2.43.0


From beda3db448f426690439940178b1f23af65f84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:15 +0000
Subject: [PATCH 42/59] fix: named scalar types, pointers to strings, pointers
 to pointers and arrays were ignored when converting Go values

---
 reflect_parse.go | 53 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index bfa46d9..ca929f1 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -191,6 +191,25 @@ func isNilValue(value interface{})bool  {
 	return !reflectv.IsValid() || reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
 }
 
+//自定义的简单类型（type X int之类）对应的基本类型的值
+func basicValue(reflectv reflect.Value)interface{}  {
+	switch reflectv.Kind() {
+	case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+		return reflectv.Int()
+	case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+		return reflectv.Uint()
+	case reflect.Bool:
+		return reflectv.Bool()
+	case reflect.Float32:
+		return float32(reflectv.Float())
+	case reflect.Float64:
+		return reflectv.Float()
+	case reflect.String:
+		return reflectv.String()
+	}
+	return nil
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
@@ -340,6 +359,10 @@ func (v *DxValue)SetValue(value interface{})  {
 		}
 		if reflectv.Kind() == reflect.Ptr{
 			reflectv = reflectv.Elem()
+			if reflectv.Kind() == reflect.Ptr || reflectv.Kind() == reflect.Interface{
+				v.SetValue(reflectv.Interface())
+				return
+			}
 		}/*else if reflect.PtrTo(reflectv.Type()).Implements(ValueMarshalerType){
 			value.(DxValueMarshaler).EncodeToDxValue(v)
 			return
@@ -391,8 +414,6 @@ func (v *DxValue)SetValue(value interface{})  {
 							fv.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
 						}else if fvtp == TimeType{
 							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(fv.Interface().(time.Time))
-						}else if fvtp == TimePtrType{
-							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(*(fv.Interface().(*time.Time)))
 						}else{
 							v.SetKeyvalue(sfield.Name,fv.Interface(),cache)
 						}
@@ -447,15 +468,13 @@ func (v *DxValue)SetValue(value interface{})  {
 							rvalue.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
 						}else if rvType == TimeType{
 							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(rvalue.Interface().(time.Time))
-						}else if rvType == TimePtrType{
-							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(*(rvalue.Interface().(*time.Time)))
 						}else{
 							v.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
 						}
 					}
 				}
 			}
-		case reflect.Slice:
+		case reflect.Slice,reflect.Array:
 			v.Reset(VT_Array)
 			cache := v.ValueCache()
 			vlen := reflectv.Len()
@@ -468,6 +487,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					v.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basicv := basicValue(reflectv);basicv != nil{
+				v.SetValue(basicv)
+			}
 		}
 
 	}
@@ -628,6 +651,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		}
 		if reflectv.Kind() == reflect.Ptr{
 			reflectv = reflectv.Elem()
+			if reflectv.Kind() == reflect.Ptr || reflectv.Kind() == reflect.Interface{
+				v.SetKeyvalue(Name,reflectv.Interface(),cache)
+				return
+			}
 		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
@@ -717,7 +744,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					}
 				}
 			}
-		case reflect.Slice:
+		case reflect.Slice,reflect.Array:
 			newv := v.emptyKey(Name,VT_Array,cache)
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
@@ -729,6 +756,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					newv.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basicv := basicValue(reflectv);basicv != nil{
+				v.SetKeyvalue(Name,basicv,cache)
+			}
 		}
 
 	}
@@ -877,6 +908,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		}
 		if reflectv.Kind() == reflect.Ptr{
 			reflectv = reflectv.Elem()
+			if reflectv.Kind() == reflect.Ptr || reflectv.Kind() == reflect.Interface{
+				v.SetIndexvalue(idx,reflectv.Interface(),cache)
+				return
+			}
 			rtype = reflectv.Type()
 		}
 		switch reflectv.Kind(){
@@ -959,7 +994,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					}
 				}
 			}
-		case reflect.Slice:
+		case reflect.Slice,reflect.Array:
 			//数组的话
 			newarr := v.emptyIndex(idx,VT_Array,cache)
 			vlen := reflectv.Len()
@@ -972,6 +1007,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					newarr.SetIndexvalue(i,realvalue.Interface(),cache)
 				}
 			}
+		default:
+			if basicv := basicValue(reflectv);basicv != nil{
+				v.SetIndexvalue(idx,basicv,cache)
+			}
 		}
 
 	}
-- 
2.43.0


From 3a64c4690f37ed79f9c46c4e1308937a403d8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 43/59] fix: ToStdValue lost array contents, panicked on slices
 and unexported fields, and left maps, pointers, interfaces, byte slices and
 empty arrays unset

---
 reflect_parse.go | 350 ++++++++++++++++++-----------------------------
 1 file changed, 135 insertions(+), 215 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ca929f1..007a486 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"encoding/json"
+	"math"
 	"reflect"
 	"strings"
 	"time"
@@ -12,39 +13,8 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 		for i := 0;i<valueType.NumField();i++{
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
-				childreflectv := fvalue.Field(i)
-				tp := fld.Type
-				if tp.Implements(ValueUnMarshalerType){
-					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
-					break
-				}
-				vhandler,ok := structTypePool.Load(tp)
-				if ok && vhandler != nil{
-					convertHandler := vhandler.(StdValueFromDxValue)
-					if convertHandler != nil{
-						convertHandler(childreflectv,childvalue)
-						break
-					}
-				}
-				switch tp.Kind() {
-				case reflect.String:
-					childreflectv.SetString(childvalue.String())
-				case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
-					childreflectv.SetInt(childvalue.Int())
-				case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
-					childreflectv.SetUint(uint64(childvalue.Int()))
-				case reflect.Float32,reflect.Float64:
-					childreflectv.SetFloat(childvalue.Double())
-				case reflect.Bool:
-					childreflectv.SetBool(childvalue.Bool())
-				case reflect.Slice:
-					decodeArray2reflect(childreflectv,childvalue,ignoreCase)
-				case reflect.Struct:
-					if tp == TimeType {
-						childreflectv.Set(reflect.ValueOf(childvalue.GoTime()))
-					}else{
-						decode2reflectFromdxValue(childreflectv,childvalue,ignoreCase,tp)
-					}
+				if childreflectv := fvalue.Field(i);childreflectv.CanSet(){
+					decodeValue2reflect(childreflectv,childvalue,ignoreCase)
 				}
 				break
 			}
@@ -53,138 +23,153 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 	})
 }
 
-func growSliceValue(v reflect.Value, n int) reflect.Value {
-	diff := n - v.Len()
-	if diff > 256 {
-		diff = 256
-	}
-	v = reflect.AppendSlice(v, reflect.MakeSlice(v.Type(), diff, diff))
-	return v
-}
-
-func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
-	if arrvalue.DataType != VT_Array{
-		return false
-	}
-	n := arrvalue.Count()
-	if n == 0{
-		return false
-	}
-	var vtype reflect.Type
-	if sliceValue.Cap() == 0{
-		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
-		sliceValue.Set(vslice.Slice(0, n))
-	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
-		sliceValue.Set(sliceValue.Slice(0, n))
-	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
-		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
+//将value的内容转换到fvalue中，类型不匹配的返回false
+func decodeValue2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)bool  {
+	tp := fvalue.Type()
+	if tp.Kind() == reflect.Ptr{
+		if value == nil || value.DataType == VT_NULL{
+			fvalue.Set(reflect.Zero(tp))
+			return true
+		}
+		if fvalue.IsNil(){
+			fvalue.Set(reflect.New(tp.Elem()))
+		}
 	}
-
-	if vtype.Implements(ValueUnMarshalerType){
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+	if tp.Implements(ValueUnMarshalerType){
+		if tp.Kind() == reflect.Interface && fvalue.IsNil(){
+			return false
 		}
+		fvalue.Interface().(DxValueUnMarshaler).DecodeFromDxValue(value)
 		return true
 	}
-
-	vhandler,ok := structTypePool.Load(vtype)
+	vhandler,ok := structTypePool.Load(tp)
 	if ok && vhandler != nil{
 		convertHandler := vhandler.(StdValueFromDxValue)
 		if convertHandler != nil{
-			for i := 0;i<n;i++{
-				arrNode := arrvalue.ValueByIndex(i)
-				if i >= sliceValue.Len() {
-					sliceValue.Set(growSliceValue(sliceValue, n))
-				}
-				convertHandler(sliceValue.Field(i),arrNode)
-			}
+			convertHandler(fvalue,value)
 			return true
 		}
 	}
-
-	if vtype == TimeType{
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
-		}
-		return true
-	}
-	switch vtype.Kind() {
+	switch tp.Kind() {
 	case reflect.String:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetString(arrNode.String())
-		}
+		fvalue.SetString(value.String())
 	case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetInt(arrNode.Int())
-		}
+		fvalue.SetInt(value.Int())
 	case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetUint(uint64(arrNode.Int()))
-		}
+		fvalue.SetUint(uint64(value.Int()))
 	case reflect.Float32,reflect.Float64:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetFloat(arrNode.Double())
-		}
+		fvalue.SetFloat(value.Double())
 	case reflect.Bool:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			sliceValue.Index(i).SetBool(arrNode.Bool())
+		fvalue.SetBool(value.Bool())
+	case reflect.Ptr:
+		return decodeValue2reflect(fvalue.Elem(),value,ignoreCase)
+	case reflect.Interface:
+		if tp.NumMethod() != 0{
+			return false
+		}
+		stdv := stdValue(value,ignoreCase)
+		if stdv == nil{
+			fvalue.Set(reflect.Zero(tp))
+		}else{
+			fvalue.Set(reflect.ValueOf(stdv))
 		}
 	case reflect.Slice:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-			decodeArray2reflect(sliceValue.Index(i),arrNode,ignoreCase)
+		if value.DataType == VT_NULL{
+			fvalue.Set(reflect.Zero(tp))
+		}else if tp.Elem().Kind() == reflect.Uint8 && (value.DataType == VT_Binary || value.DataType == VT_ExBinary){
+			fvalue.SetBytes(append([]byte{},value.Binary()...))
+		}else{
+			return decodeArray2reflect(fvalue,value,ignoreCase)
 		}
+	case reflect.Array:
+		if value.DataType != VT_Array{
+			return false
+		}
+		fvalue.Set(reflect.Zero(tp))
+		for i := 0;i<fvalue.Len() && i < value.Count();i++{
+			decodeValue2reflect(fvalue.Index(i),value.ValueByIndex(i),ignoreCase)
+		}
+	case reflect.Map:
+		if value.DataType == VT_NULL{
+			fvalue.Set(reflect.Zero(tp))
+			return true
+		}
+		if value.DataType != VT_Object || tp.Key().Kind() != reflect.String{
+			return false
+		}
+		newmap := reflect.MakeMap(tp)
+		value.Visit(func(Key string, mapvalue *DxValue) bool {
+			elem := reflect.New(tp.Elem()).Elem()
+			decodeValue2reflect(elem,mapvalue,ignoreCase)
+			newmap.SetMapIndex(reflect.ValueOf(Key).Convert(tp.Key()),elem)
+			return true
+		})
+		fvalue.Set(newmap)
 	case reflect.Struct:
-		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
-			if i >= sliceValue.Len() {
-				sliceValue.Set(growSliceValue(sliceValue, n))
-			}
-
-			decode2reflectFromdxValue(sliceValue.Index(i),arrNode,ignoreCase,vtype)
+		if tp == TimeType {
+			fvalue.Set(reflect.ValueOf(value.GoTime()))
+		}else if value.DataType == VT_Object{
+			decode2reflectFromdxValue(fvalue,value,ignoreCase,tp)
+		}else{
+			return false
 		}
-
 	default:
 		return false
 	}
 	return true
 }
 
+func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase bool)bool  {
+	if arrvalue.DataType != VT_Array{
+		return false
+	}
+	n := arrvalue.Count()
+	//以前的内容可能和别处共享，不能写入
+	sliceValue.Set(reflect.MakeSlice(sliceValue.Type(), n, n))
+	for i := 0;i<n;i++{
+		decodeValue2reflect(sliceValue.Index(i),arrvalue.ValueByIndex(i),ignoreCase)
+	}
+	return true
+}
+
+//转换成interface{}中的标准类型
+func stdValue(v *DxValue,ignoreCase bool)interface{}  {
+	if v == nil{
+		return nil
+	}
+	switch v.DataType {
+	case VT_Object:
+		newvalue := make(map[string]interface{},v.Count())
+		v.ToStdValue(newvalue,ignoreCase)
+		return newvalue
+	case VT_Array:
+		newvalue := make([]interface{},v.Count())
+		v.ToStdValue(newvalue,ignoreCase)
+		return newvalue
+	case VT_String,VT_RawString:
+		return v.String()
+	case VT_Int:
+		return v.Int()
+	case VT_DateTime:
+		return v.GoTime()
+	case VT_Double:
+		return v.Double()
+	case VT_Float:
+		return v.Float()
+	case VT_Binary,VT_ExBinary:
+		return v.Binary()
+	case VT_True:
+		return true
+	case VT_False:
+		return false
+	case VT_NAN:
+		return math.NaN()
+	case VT_INF:
+		return math.Inf(1)
+	}
+	return nil
+}
+
 //空接口和空指针描述的是null
 func isNilValue(value interface{})bool  {
 	reflectv := reflect.ValueOf(value)
@@ -1066,79 +1051,25 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			return false
 		}
 		v.Visit(func(Key string, mapvalue *DxValue) bool {
-			switch mapvalue.DataType {
-			case VT_Object:
-				newvalue := make(map[string]interface{},mapvalue.Count())
-				mapvalue.ToStdValue(newvalue,ignoreCase)
-				value[Key] = newvalue
-			case VT_Array:
-				newvalue := make([]interface{},mapvalue.Count())
-				mapvalue.ToStdValue(newvalue,ignoreCase)
-				value[Key] = newvalue
-			case VT_String,VT_RawString:
-				value[Key] = mapvalue.String()
-			case VT_Int:
-				value[Key] = mapvalue.Int()
-			case VT_DateTime:
-				value[Key] = mapvalue.GoTime()
-			case VT_Double:
-				value[Key] = mapvalue.Double()
-			case VT_Float:
-				value[Key] = mapvalue.Float()
-			case VT_Binary,VT_ExBinary:
-				value[Key] = mapvalue.Binary()
-			case VT_True:
-				value[Key] = true
-			case VT_False:
-				value[Key] = false
-			case VT_NULL:
-				value[Key] = nil
-			}
+			value[Key] = stdValue(mapvalue,ignoreCase)
 			return true
 		})
 	case []interface{}:
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			switch arrvalue.DataType {
-			case VT_Object:
-				newvalue := make(map[string]interface{},arrvalue.Count())
-				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
-			case VT_Array:
-				newvalue := make([]interface{},arrvalue.Count())
-				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
-			case VT_String,VT_RawString:
-				value = append(value,arrvalue.String())
-			case VT_Int:
-				value = append(value,arrvalue.Int())
-			case VT_DateTime:
-				value = append(value,arrvalue.GoTime())
-			case VT_Double:
-				value = append(value,arrvalue.Double())
-			case VT_Float:
-				value = append(value,arrvalue.Float())
-			case VT_Binary,VT_ExBinary:
-				value = append(value,arrvalue.Binary())
-			case VT_True:
-				value = append(value,true)
-			case VT_False:
-				value = append(value,false)
-			case VT_NULL:
-				value = append(value,nil)
-			}
-			return true
-		})
+		for i := 0;i<len(value) && i<len(v.farr);i++{
+			value[i] = stdValue(v.farr[i],ignoreCase)
+		}
+		return len(value) >= len(v.farr)
 	case []string:
 		if v.DataType != VT_Array{
 			return false
 		}
-		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			value = append(value,arrvalue.String())
-			return true
-		})
+		for i := 0;i<len(value) && i<len(v.farr);i++{
+			value[i] = v.farr[i].String()
+		}
+		return len(value) >= len(v.farr)
 	default:
 		reflectv := reflect.ValueOf(destv)
 		if !reflectv.IsValid(){
@@ -1151,21 +1082,10 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			destv.(DxValueUnMarshaler).DecodeFromDxValue(v)
 			return true
 		}
-		reflectv = reflectv.Elem()
-		valueType := reflectv.Type()
-
-		if v.DataType != VT_Object{
-			return false
-		}
-		//反射处理,只处理结构体
-		switch valueType.Kind() {
-		case reflect.Struct:
-			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
-		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
-		default:
+		if reflectv.IsNil(){
 			return false
 		}
+		return decodeValue2reflect(reflectv.Elem(),v,ignoreCase)
 	}
 	return true
 }
-- 
2.43.0


From 2243ebaa991492588cf48916037aa360ca60f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:35 +0000
Subject: [PATCH 44/59] fix: YAML reader hung or panicked on short and blank
 lines, lost or misplaced nested blocks, anchors, merges and nulls, kept state
 between parses and rounded numbers

---
 dxvalue.go   |  23 +--
 yamlparse.go | 478 +++++++++++++++++++--------------------------------
 2 files changed, 178 insertions(+), 323 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index c35a11d..8bd6118 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -309,32 +309,17 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 		return ErrReadOnly
 	}
 	v.Clear()
-	spacount := 0
-	for i := 0;i<len(b);i++{
-		if b[i] == ' ' || b[i] == '\r' || b[i] == '\n' || b[i] == '\t'{
-			spacount++
-			continue
-		}
-		break
-	}
-	b = b[spacount:]
-	if len(b) == 0{
-		return nil
-	}
-	if b[0] == '-'{
-		v.Reset(VT_Array)
-	}else{
-		v.Reset(VT_Object)
-	}
-
+	v.Reset(VT_NULL)
 	parser := newyamParser()
 	parser.parseData = b
 	parser.usecache = false
 	parser.root = v
 	parser.fparentCache = v.ValueCache()
-	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
diff --git a/yamlparse.go b/yamlparse.go
index d909717..9c7d0bc 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -12,16 +12,14 @@ func spaceTrim(r rune) bool {
 }
 
 type yamlNode struct {
-	isMapArrayNode	bool
+	isKeyValue		bool		//是对象的键的值
+	isEmpty			bool		//还没有内容
 	spaceCount		int			//空格个数
 	v				*DxValue
 }
 
 type yamlParser struct {
-	ifFirstObjEle		bool				//是否是对象的第一个元素
-	lastOpifMerge		bool				//上一步操作是合并操作
 	usecache			bool
-	lastSpaceCount		int
 	root				*DxValue
 	fparentCache		*ValueCache
 	parseData			[]byte
@@ -84,149 +82,110 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 	return nil
 }
 
-func (parser *yamlParser)popLast(popCount int)  {
-	l := len(parser.fParsingValues)
-	if l > 0{
-		if popCount > l{
-			popCount = l
-		}
-		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
-			parser.fParsingValues[i].v = nil
-		}
-		parser.fParsingValues = parser.fParsingValues[:l-popCount]
+//弹出最后一个正在解析的值，没有内容的就是null
+func (parser *yamlParser)popLast()  {
+	l := len(parser.fParsingValues) - 1
+	if parser.fParsingValues[l].isEmpty{
+		parser.fParsingValues[l].v.Reset(VT_NULL)
 	}
+	parser.fParsingValues[l].v = nil
+	parser.fParsingValues = parser.fParsingValues[:l]
 }
 
-func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
-	var currentValue *DxValue
-	isvalue := false
-	if len(dataLine) > 0{
-		if dataLine[0] != ' '{
-			//判定一下当前的空格数量
-			if spaceCount <= parser.lastSpaceCount{
-				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-			}
-			//只有大于的时候，才可能认为是上个内容的字符串
-		}
-		dataLine = bytes.TrimFunc(dataLine,spaceTrim)
-		isvalue = len(dataLine) > 0
-	}
-	lastIndex := len(parser.fParsingValues) - 1
-	if lastIndex < 0{
-		if parser.usecache{
-			parser.fparentCache = getCache()
-			currentValue = parser.fparentCache.getValue(VT_Array)
-		}else{
-			currentValue = NewArray(true)
-			parser.fparentCache = currentValue.ValueCache()
+//弹出所有不可能是当前行父级的内容，返回当前行的父级
+func (parser *yamlParser)findParent(isArray bool,spaceCount int)*yamlNode  {
+	for{
+		node := &parser.fParsingValues[len(parser.fParsingValues) - 1]
+		if node.spaceCount < spaceCount{
+			return node
 		}
-		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
-	}else{
-		currentValue = parser.fParsingValues[lastIndex].v
-	}
-	isstrvalue := false
-	if currentValue.DataType == VT_Object{
-		currentValue.Reset(VT_Array)
-	}
-	if currentValue.DataType == VT_Array{
-		if isvalue{
-			currentValue = currentValue.SetIndexCached(-1,VT_String,parser.fparentCache)
-		}else{
-			currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
+		//key的数组内容可以和key对齐
+		if isArray && node.isKeyValue && node.spaceCount == spaceCount && (node.isEmpty || node.v.DataType == VT_Array){
+			return node
 		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else{
-		isstrvalue = true
+		parser.popLast()
 	}
-	if isvalue{
-		if isstrvalue{
-			currentValue.SetString(currentValue.String() + " "+string(dataLine))
-		}else{
-			k,v,hasKeySplit := parser.splitKv(dataLine)
-			if !hasKeySplit{ //不存在键值分隔符
-				parser.parseStringValue(currentValue,k,true)
+}
 
+//将父级的值变成对应的容器
+func (parser *yamlParser)asContainer(node *yamlNode,tp ValueType,dataLine []byte)error  {
+	if node.isEmpty{
+		node.isEmpty = false
+		if node.v == nil{
+			if !parser.usecache{
+				node.v = NewValue(tp)
 			}else{
-				if len(k) == 0{
-					return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-				}
-				//map结构增加
-				currentValue.Reset(VT_Object)
-				//要加上数组标记"- "的长度2
-				parser.fParsingValues[len(parser.fParsingValues) - 1].isMapArrayNode = true
-				parser.ifFirstObjEle = true
-				//parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount = parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount + 2
-				if len(v) == 0{
-					currentValue = currentValue.SetKeyCached(string(k),VT_NULL,parser.fparentCache)
-				}else{
-					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,v,true)
-				}
-				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
-
+				parser.fparentCache = getCache()
+				node.v = parser.fparentCache.getValue(tp)
 			}
+			parser.root = node.v
+		}else{
+			node.v.Reset(tp)
 		}
 	}
+	if node.v.DataType != tp{
+		return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+	}
 	return nil
 }
+
+func isYamlArray(dataLine []byte)bool  {
+	return dataLine[0] == '-' && (len(dataLine) == 1 || dataLine[1] == ' ')
+}
+
+func (parser *yamlParser)parseArray(parent *yamlNode,dataLine []byte,spaceCount int)error  {
+	if err := parser.asContainer(parent,VT_Array,dataLine);err != nil{
+		return err
+	}
+	//数组元素内容的位置
+	valueSpace := spaceCount + 1
+	dataLine = dataLine[1:]
+	for len(dataLine) > 0 && dataLine[0] == ' '{
+		dataLine = dataLine[1:]
+		valueSpace++
+	}
+	currentValue := parent.v.SetIndexCached(-1,VT_String,parser.fparentCache)
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,true,spaceCount,currentValue})
+	node := &parser.fParsingValues[len(parser.fParsingValues) - 1]
+	if len(dataLine) == 0{
+		return nil
+	}
+	if isYamlArray(dataLine){ // - - name 数组的数组
+		return parser.parseArray(node,dataLine,valueSpace)
+	}
+	if _,_,hasKeySplit := parser.splitKv(dataLine);hasKeySplit{ // - name: //这种数组和object集合的
+		return parser.parseObject(node,dataLine,valueSpace)
+	}
+	return parser.parseStringValue(node,dataLine,true)
+}
 var(
 	commetTag []byte = []byte{' ','#'}
 )
 func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	dataLine := lineData[spaceCount:]
-	if dataLine[0] == '#'{
-		//注释，不做处理
+	if len(dataLine) == 0 || dataLine[0] == '#'{
+		//空行，注释，不做处理
 		return nil
 	}
 
 	//在中间出现了#注释，需要前面有一个空格，有空格的就认为后面是注释
 	lastIndex := bytes.Index(dataLine,commetTag)
-	if lastIndex > 1{
+	if lastIndex > 0{
 		dataLine = dataLine[:lastIndex]
-		if len(dataLine) == 0{
-			//注释不处理
-			return nil
-		}
 	}
-
-
-	isArray := dataLine[0] == '-'
-	lastIndex = len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
-	if parser.ifFirstObjEle && lastIndex >= 0{
-		if parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
-		}
+	dataLine = bytes.TrimFunc(dataLine,spaceTrim)
+	if len(dataLine) == 0{
+		return nil
 	}
-
-	if  lastSpaceCount > spaceCount{
-		//大于的时候，需要将上一个值写入的弹出,然后还需要将值的parent弹出
-		parser.popLast(2)
-		//然后查找和当前的spaceCount相同的组
-		l := len(parser.fParsingValues)
-		popcount := l
-		for i := l - 1;i>0;i--{
-			if parser.fParsingValues[i].spaceCount < spaceCount{
-				break
-			}else{
-				parser.fParsingValues[i].v = nil
-				popcount--
-			}
-		}
-		parser.fParsingValues = parser.fParsingValues[:popcount]
-	}else if lastSpaceCount == spaceCount{
-		parser.popLast(1)
+	if len(parser.fParsingValues) == 0{
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,true,-1,parser.root})
 	}
-	var err error
+	isArray := isYamlArray(dataLine)
+	parent := parser.findParent(isArray,spaceCount)
 	if isArray{
-		err = parser.parseArray(dataLine[1:],spaceCount)
-	}else{
-		err = parser.parseObject(dataLine,spaceCount)
+		return parser.parseArray(parent,dataLine,spaceCount)
 	}
-
-	parser.lastSpaceCount = spaceCount
-	return err
+	return parser.parseObject(parent,dataLine,spaceCount)
 }
 
 func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []byte)(bool,error)  {
@@ -246,6 +205,9 @@ func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []
 			merged = cacheKey != ""
 			if merged{
 				useage := parser.getUseage(cacheKey)
+				if useage != nil && parser.isParsing(useage){
+					return false,fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+				}
 				merged = useage != nil && useage.DataType == VT_Object
 				if merged{
 					currentValue.AddFrom(useage,parser.fparentCache)
@@ -256,203 +218,111 @@ func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []
 	return merged,nil
 }
 
-func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
-	var currentValue *DxValue
-	//非数组
-	lastIndex := len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
-	if lastIndex < 0{
-		if parser.usecache{
-			parser.fparentCache = getCache()
-			currentValue = parser.fparentCache.getValue(VT_Object)
-		}else{
-			currentValue = NewObject(true)
-			parser.fparentCache = currentValue.ValueCache()
-		}
-		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
-	}else{
-		if parser.ifFirstObjEle && parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
-		}
-		currentValue = parser.fParsingValues[lastIndex].v
-	}
-	if parser.ifFirstObjEle{
-		parser.ifFirstObjEle = false
-	}
-
+func (parser *yamlParser)parseObject(parent *yamlNode,dataLine []byte,spaceCount int)error  {
 	key,value,hasKeySplit := parser.splitKv(dataLine)
-
-	if lastIndex < 0{
-		if len(key) == 0 || !hasKeySplit{
+	if !hasKeySplit{
+		//只能是上个内容的字符串
+		if parent.spaceCount < 0{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
-	}
-	if  lastSpaceCount == spaceCount{
-		//和上一步是同一级，判定一下是否具备KV结构
-		if len(key) == 0 || !hasKeySplit{
-			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-		}
-		//判定一下key是否是需要归并的
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if !merged{
-			if value != nil{
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				parser.parseStringValue(currentValue,value,true)
-			}else{
-				//是一个新的对象
-				currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else if spaceCount > lastSpaceCount{
-		//子集
-		if len(key) == 0{
-			//字符串
-			if currentValue.DataType == VT_Object || currentValue.DataType == VT_Array{
-				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-			}
-			oldstr := currentValue.String()
-			currentValue.SetString(oldstr + " :"+string(value))
-			return nil
-		}
-		if currentValue.DataType != VT_Object{
-			currentValue.Reset(VT_Object)
-		}
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if merged{ //合并
-			parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-			return nil
-		}
-
-		vkey := string(key)
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-		}else{
-			//判定一下是否是引用界定值
-			if value[0] != '&'{
-				if value[0] == '*'{ //引用其他值信息
-					usekey := DxCommonLib.FastByte2String(value[1:])
-					usecache := parser.getUseage(usekey)
-					if usecache != nil{
-						 newvalue := usecache.clone(parser.fparentCache)
-						 currentValue.SetKeyValue(vkey,newvalue)
-						 currentValue = newvalue
-					}else{
-						currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-						currentValue.SetString(string(value))
-					}
-				}else{
-					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
-				}
-			}else{
-				//引用的，判定有没有空格，如果有空格的是字符串引用，否则就是对象引用
-				refKey := ""
-				isrefObject := true
-				spaceindex := bytes.IndexByte(value[1:],' ')
-				if spaceindex > 0{
-					refKey = string(value[1:spaceindex+1])
-					value = bytes.TrimFunc(value[spaceindex+1:],spaceTrim)
-					isrefObject = len(value) == 0
-				}else{
-					refKey = string(value[1:])
-				}
-				if isrefObject{
-					currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-				}else{
-					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
-				}
-				parser.setCachedUseage(refKey,currentValue)
-			}
+		if parent.isEmpty{
+			return parser.parseStringValue(parent,dataLine,true)
 		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else{
-		//完成闭包处理，回到上一个对象处理结构
-		if len(key) == 0 || !hasKeySplit || currentValue.DataType != VT_Object{
+		if parent.v.DataType != VT_String{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
-		}else{
-			merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-			if err != nil{
-				return err
-			}
-			if !merged{ //合并
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				//currentValue.SetString(string(value))
-				parser.parseStringValue(currentValue,value,true)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
+		parent.v.SetString(parent.v.String() + " " + string(dataLine))
+		return nil
 	}
-
-	return nil
+	if len(key) == 0{
+		return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+	}
+	if err := parser.asContainer(parent,VT_Object,dataLine);err != nil{
+		return err
+	}
+	//判定一下key是否是需要归并的
+	merged,err := parser.mergeObject(parent.v,dataLine,key,value)
+	if err != nil || merged{
+		return err
+	}
+	currentValue := parent.v.SetKeyCached(string(key),VT_String,parser.fparentCache)
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,true,spaceCount,currentValue})
+	if len(value) == 0{
+		return nil
+	}
+	return parser.parseStringValue(&parser.fParsingValues[len(parser.fParsingValues) - 1],value,true)
 }
 
 func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 	dataline = bytes.TrimFunc(dataline,spaceTrim)
-	splitindex := bytes.IndexByte(dataline,':')
-	if splitindex < 0{
-		return dataline,nil,false
+	for i := 0;i<len(dataline);i++{
+		if dataline[i] != ':'{
+			continue
+		}
+		if i == len(dataline) - 1 || dataline[i+1] == ' '{ //必须有一个空格才算是kV结构
+			return bytes.TrimFunc(dataline[:i],spaceTrim),bytes.TrimFunc(dataline[i+1:],spaceTrim),true
+		}
 	}
-	if splitindex < len(dataline) - 1{ //必须有一个空格才算是kV结构
-		if dataline[splitindex + 1] == ' '{
-			return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+2:],spaceTrim),true
+	return dataline,nil,false
+}
+
+//是否正在解析中
+func (parser *yamlParser)isParsing(v *DxValue)bool  {
+	for i := 0;i<len(parser.fParsingValues);i++{
+		if parser.fParsingValues[i].v == v{
+			return true
 		}
-		return dataline,nil,false
-	}else{
-		return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
 	}
+	return false
 }
 
-func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bool)  {
+func isYamlNum(vstr []byte)bool  {
+	hasDigit := false
+	for i := 0;i<len(vstr);i++{
+		switch ch := vstr[i];{
+		case ch >= '0' && ch <= '9':
+			hasDigit = true
+		case ch == '.',ch == '-',ch == '+':
+		case (ch == 'e' || ch == 'E') && hasDigit:
+		default:
+			return false
+		}
+	}
+	return hasDigit
+}
+
+func (parser *yamlParser)parseStringValue(node *yamlNode,vstr []byte,isfirst bool)error  {
+	target := node.v
+	if isfirst && vstr[0] == '&'{
+		//解析出数据
+		spaceIndex := bytes.IndexByte(vstr,' ')
+		if spaceIndex < 0{
+			//内容在后面的行
+			parser.setCachedUseage(string(vstr[1:]),target)
+			return nil
+		}
+		parser.setCachedUseage(string(vstr[1:spaceIndex]),target)
+		return parser.parseStringValue(node,bytes.TrimFunc(vstr[spaceIndex+1:],spaceTrim),false) //继续解析
+	}
+	node.isEmpty = false
 	vlen := len(vstr)
 	if vlen == 4 && bytes.Compare(vstr,truebyte) == 0{
 		target.SetBool(true)
-		return
+		return nil
 	}
 	if vlen == 5 && bytes.Compare(vstr,falebyte) == 0{
 		target.SetBool(false)
-		return
+		return nil
+	}
+	if vlen == 1 && vstr[0] == '~' || vlen == 4 && bytes.Compare(vstr,nullbyte) == 0{
+		target.Reset(VT_NULL)
+		return nil
 	}
-	if vfloat,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
-		target.SetDouble(vfloat)
-		return
+	if isYamlNum(vstr) && setJsonNum(vstr,target) == nil{
+		return nil
 	}
 	//判定一下是否有使用引用参数的
-	if vstr[0] == '{' && vstr[vlen - 1] == '}'{
-		//解析Json Map格式的串结构
-	}else if vstr[0] == '[' && vstr[vlen - 1] == ']'{
-		//解析Json Array格式的串结构
-	}else if vstr[0] == '&' {
-		//解析出数据
-		if !isfirst{
-			target.SetString(string(vstr))
-			return
-		}
-		spaceIndex := bytes.IndexByte(vstr,' ')
-		if spaceIndex > -1{
-			cacheKey := string(vstr[1:spaceIndex])
-			parser.setCachedUseage(cacheKey,target)
-			value := bytes.TrimFunc(vstr[spaceIndex+1:],spaceTrim)
-			if len(value) == 0{
-				target.SetString("")
-			}else{
-				parser.parseStringValue(target,value,false) //继续解析
-			}
-		}else {
-			target.SetString("")
-		}
-	}else if vstr[0] == '*' {
+	if isfirst && vstr[0] == '*' {
 		spaceIndex := bytes.IndexByte(vstr,' ')
 		cachekey := ""
 		if spaceIndex > -1{
@@ -460,14 +330,16 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		}else{
 			cachekey = string(vstr[1:])
 		}
-		if useage := parser.getUseage(cachekey);useage == nil{
-			target.SetString(string(vstr))
-		}else{
+		if useage := parser.getUseage(cachekey);useage != nil{
+			if parser.isParsing(useage){
+				return fmt.Errorf("无效的Yaml格式：%s",string(vstr))
+			}
 			target.CopyFrom(useage,parser.fparentCache)
+			return nil
 		}
-	}else{
-		target.SetString(string(vstr))
 	}
+	target.SetString(string(vstr))
+	return nil
 }
 
 func (parser *yamlParser)parse()error  {
@@ -477,8 +349,6 @@ func (parser *yamlParser)parse()error  {
 	}
 	istart := 0
 	curLineEnd := 0
-	parser.lastOpifMerge = false
-	parser.lastSpaceCount = -1
 	for {
 		spaceCount := 0
 		isStart := true
@@ -496,13 +366,6 @@ func (parser *yamlParser)parse()error  {
 				}
 			}
 		}
-		if curLineEnd - istart < 2{
-			istart = curLineEnd + 1
-			if istart == datalen{
-				break
-			}
-			continue
-		}
 		err := parser.parseLine(parser.parseData[istart: curLineEnd],spaceCount)
 		if err != nil{
 			return err
@@ -513,6 +376,10 @@ func (parser *yamlParser)parse()error  {
 			break
 		}
 	}
+	//没有内容的都是null
+	for len(parser.fParsingValues) > 0{
+		parser.popLast()
+	}
 	return nil
 }
 
@@ -527,6 +394,9 @@ func NewValueFromYaml(b []byte,usecache bool)(*DxValue,error)  {
 	}
 	result := parser.root
 	freeyamlParser(parser)
+	if result == nil{
+		result = NewValue(VT_NULL)
+	}
 	return result,nil
 }
 
-- 
2.43.0


From 775a12b63c291e845826032285f52c78eb3bbbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:21 +0000
Subject: [PATCH 45/59] fix: with IgnoreCase a key written with escapes was
 passed over for a later one that differs only in case

---
 dxvalue.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8bd6118..b0bc39f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -58,9 +58,9 @@ func (obj *VObject)getKv()*strkv  {
 }
 
 func (obj *VObject)Remove(Name string)  {
-	if !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
+	if !IgnoreCase && !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
-			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,Name) || obj.strkvs[i].K == Name {
+			if obj.strkvs[i].K == Name {
 				obj.strkvs = append(obj.strkvs[:i],obj.strkvs[i+1:]...)
 				return
 			}
@@ -77,9 +77,9 @@ func (obj *VObject)Remove(Name string)  {
 }
 
 func (obj *VObject)ExtractValue(Name string)*DxValue  {
-	if !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
+	if !IgnoreCase && !obj.keysUnescaped && strings.IndexByte(Name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
-			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,Name) || obj.strkvs[i].K == Name{
+			if obj.strkvs[i].K == Name{
 				result := obj.strkvs[i].V
 				obj.strkvs = append(obj.strkvs[:i],obj.strkvs[i+1:]...)
 				return result
@@ -99,9 +99,9 @@ func (obj *VObject)ExtractValue(Name string)*DxValue  {
 }
 
 func (obj *VObject)indexByName(name string)int  {
-	if !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
+	if !IgnoreCase && !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
-			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) ||  obj.strkvs[i].K == name{
+			if obj.strkvs[i].K == name{
 				return i
 			}
 		}
@@ -117,9 +117,9 @@ func (obj *VObject)indexByName(name string)int  {
 }
 
 func (obj *VObject) ValueByName(name string) *DxValue {
-	if !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
+	if !IgnoreCase && !obj.keysUnescaped && strings.IndexByte(name, '\\') < 0 {
 		for i := 0;i<len(obj.strkvs);i++{
-			if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) || obj.strkvs[i].K == name{
+			if obj.strkvs[i].K == name{
 				return obj.strkvs[i].V
 			}
 		}
-- 
2.43.0


From 180b661631567119f0da6219bf9ec519e04f2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:57 +0000
Subject: [PATCH 46/59] fix: asking for a string at a key or index emptied a
 string read from JSON that had not been read before

---
 dxvalue.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index b0bc39f..4ddab8e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1177,6 +1177,16 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 	return result.GoTime()
 }
 
+//转换为指定类型，已经是该类型的保留内容(未转义的Json字符串也是字符串)
+func (v *DxValue)retype(tp ValueType)  {
+	if v.DataType == VT_RawString && tp == VT_String{
+		_ = v.String()
+	}
+	if v.DataType != tp{
+		v.Reset(tp)
+	}
+}
+
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 	if v.ReadOnly(){
 		return c.getValue(tp) //固定值不能修改，返回一个独立的值
@@ -1196,8 +1206,8 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
-		}else if result.DataType != tp {
-			result.Reset(tp)
+		}else{
+			result.retype(tp)
 		}
 		return result
 	}
@@ -1290,8 +1300,8 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 		if result == nil || result.ReadOnly(){
 			result = c.getValue(tp)
 			v.farr[idx] = result
-		}else if result.DataType != tp{
-			result.Reset(tp)
+		}else{
+			result.retype(tp)
 		}
 		return result
 	}else{
-- 
2.43.0


From 31a6ce72af465b29b53a66b7db512e5b6836585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 47/59] fix: a nil pointer to a marshaler behind another
 pointer panicked

---
 reflect_parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 007a486..49879a2 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -395,7 +395,7 @@ func (v *DxValue)SetValue(value interface{})  {
 				default:
 					if fv.CanInterface(){
 						fvtp := fv.Type()
-						if fvtp.Implements(ValueMarshalerType){
+						if fvtp.Implements(ValueMarshalerType) && !isNilValue(fv.Interface()){
 							fv.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
 						}else if fvtp == TimeType{
 							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(fv.Interface().(time.Time))
@@ -449,7 +449,7 @@ func (v *DxValue)SetValue(value interface{})  {
 				default:
 					if rvalue.CanInterface(){
 						rvType := rvalue.Type()
-						if rvType.Implements(ValueMarshalerType){
+						if rvType.Implements(ValueMarshalerType) && !isNilValue(rvalue.Interface()){
 							rvalue.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
 						}else if rvType == TimeType{
 							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(rvalue.Interface().(time.Time))
-- 
2.43.0


From fe2c3f0730647104a6ccef311182ed92d588b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:34 +0000
Subject: [PATCH 48/59] fix: SetValue with a float64 on a date-time made it
 another date-time instead of that number

---
 reflect_parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 49879a2..9ffa628 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -263,8 +263,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float32:
 		v.SetFloat(*realv)
 	case float64:
+		v.Reset(VT_Double)
 		v.SetDouble(realv)
 	case *float64:
+		v.Reset(VT_Double)
 		v.SetDouble(*realv)
 	case []byte:
 		v.Reset(VT_Binary)
-- 
2.43.0


From 023965406c1b8c1849775bdfd07b5fd5c6d0767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:11 +0000
Subject: [PATCH 49/59] fix: freeing a true, false, null, nan or inf value
 wrote to the shared constant, a data race between goroutines

---
 cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 67c7c40..b5fd07d 100644
--- a/cache.go
+++ b/cache.go
@@ -59,7 +59,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){
 		return
 	}
 	v.Clear()
-- 
2.43.0


From 023ff98deb80666a9753b93f6c273e1cfd4db615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:47 +0000
Subject: [PATCH 50/59] fix: limit the nesting depth of JSON documents so
 hostile input cannot exhaust the stack

---
 dxvalue.go   |  3 +++
 jsonparse.go | 24 ++++++++++++++----------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 4ddab8e..045c6fa 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -33,8 +33,11 @@ const(
 var(
 	IgnoreCase = false		//是否忽略大小写
 	ErrReadOnly = errors.New("the value is a readonly constant")
+	ErrNestTooDeep = errors.New("the document is nested too deep")
 )
 
+//解析的时候允许的最大嵌套层数，和encoding/json的一样，防止异常的数据将栈耗尽
+const maxNestLevel = 10000
 
 type  strkv struct {
 	K			string
diff --git a/jsonparse.go b/jsonparse.go
index 36d6538..1816ea2 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -67,7 +67,7 @@ func (err *ErrorParseJson)Error()string  {
 
 //解析从fastjson中的代码修改
 //如果成功，tail中返回的是剩下的字节内容，否则发生错误的话，tail中返回的是当前正在解析的数据
-func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonObj(b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0{
@@ -118,7 +118,7 @@ func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,c,sharebinary)
+		kv.V, b, err = parseJsonValue(b,c,sharebinary,level)
 		if err != nil {
 			result = nil
 			tail = b
@@ -195,7 +195,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary)
+		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -295,7 +295,7 @@ func parseJsonString(b []byte,sharebinary bool) (value string, tail []byte, err
 	}
 }
 
-func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonArray(b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0 {
@@ -317,7 +317,7 @@ func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,c,sharebinary)
+		v, b, err = parseJsonValue(b,c,sharebinary,level)
 		if err != nil {
 			return nil,b,err
 		}
@@ -368,7 +368,7 @@ func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,result.ownercache,sharebinary)
+		v, b, err = parseJsonValue(b,result.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -422,7 +422,7 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	b,skiplen := skipWB(b)
-	v, tail, err := parseJsonValue(b,c,sharebinary)
+	v, tail, err := parseJsonValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
@@ -438,7 +438,8 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 	return v,nil
 }
 
-func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+//level是b所在的嵌套层数，递归解析，层数必须有限制
+func parseJsonValue(b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,nil,&ErrorParseJson{
 			Type:         0,
@@ -446,11 +447,14 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 			parseB:       b,
 		}
 	}
+	if (b[0] == '{' || b[0] == '[') && level >= maxNestLevel{
+		return nil,b,ErrNestTooDeep
+	}
 	if b[0] == '{'{
-		return parseJsonObj(b[1:],c,sharebinary)
+		return parseJsonObj(b[1:],c,sharebinary,level+1)
 	}
 	if b[0] == '[' {
-		return parseJsonArray(b[1:],c,sharebinary)
+		return parseJsonArray(b[1:],c,sharebinary,level+1)
 	}
 	if b[0] == '"' {
 		ss, tail, err := parseJsonString(b[1:],sharebinary)
-- 
2.43.0


From f99cedfc30f10a366c5ef2a2fa9d749b5d37b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 51/59] fix: limit the nesting depth of MsgPack documents so
 hostile input cannot exhaust the stack

---
 msgpackparse.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index c37a4d0..1a3cf36 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -55,7 +55,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -65,7 +65,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	return
 }
 
-func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error)  {
 	maplen,b,err := parseMapLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -99,7 +99,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,level)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -111,7 +111,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 }
 
 
-func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error){
+func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error){
 	arrlen,b,err := parseArrLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -125,7 +125,7 @@ func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)
 		c = result.ValueCache()
 	}
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,level)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -147,7 +147,7 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	}
 	var value *DxValue
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -156,11 +156,15 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	return b,err
 }
 
-func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+//level是b所在的嵌套层数，递归解析，层数必须有限制
+func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool,level int)(result *DxValue,tail []byte,err error)  {
 	code,b,err := readCode(b)
 	if err != nil{
 		return nil,b,err
 	}
+	if level >= maxNestLevel && (code.IsArray() || code.IsMap()){
+		return nil,b,ErrNestTooDeep
+	}
 	switch  {
 	case code.IsStr():
 		strbt,tail,err := parseString(code,b)
@@ -175,9 +179,9 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 		}
 		return result,tail,nil
 	case code.IsArray():
-		return parseMsgPackArray(code,b,c,sharebinary)
+		return parseMsgPackArray(code,b,c,sharebinary,level+1)
 	case code.IsMap():
-		return parseMsgPackObject(code,b,c,sharebinary)
+		return parseMsgPackObject(code,b,c,sharebinary,level+1)
 	case code.IsFixedNum():
 		result = c.getValue(VT_Int)
 		result.SetInt(int64(int8(code)))
@@ -501,7 +505,7 @@ func NewValueFromMsgPack(b []byte,useCache bool,sharebinary bool)(*DxValue,error
 	}else{
 		c = getCache()
 	}
-	v, _, err := parseMsgPackValue(b,c,sharebinary)
+	v, _, err := parseMsgPackValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a05a0e2154f9da32dbb674cdfbd0ea3e9bacbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 52/59] fix: limit the nesting depth of BSON documents so
 hostile input cannot exhaust the stack

---
 bson_parse.go | 21 ++++++++++++++-------
 dxvalue.go    |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index b7e1047..adae336 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -37,7 +37,11 @@ func bsonDocLen(b []byte)(int,error)  {
 BSON文档（对象）由一个有序的元素列表构成。每个元素由一个字段名、一个类型和一个值组成。字段名为字符串。
 所以BSON文档必然是Object
  */
-func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
+//level是b所在的嵌套层数，递归解析，层数必须有限制
+func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue,level int)(docLen,parseIndex int,err error)  {
+	if level >= maxNestLevel{
+		return 0,0,ErrNestTooDeep
+	}
 	if docLen,err = bsonDocLen(b);err != nil{
 		return docLen,0,err
 	}
@@ -68,7 +72,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 		switch btype {
 		case BSON_Array:
 			element = documentValue.SetKeyCached(keyName,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary,level+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -76,7 +80,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		case BSON_EmbeddedDocument:
 			element = documentValue.SetKeyCached(keyName,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element,level+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -100,7 +104,10 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
-func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool,level int)(docLen,parseIndex int,err error)  {
+	if level >= maxNestLevel{
+		return 0,0,ErrNestTooDeep
+	}
 	if docLen,err = bsonDocLen(b);err != nil{
 		return docLen,0,err
 	}
@@ -136,7 +143,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 		switch btype {
 		case BSON_Array:
 			element = value.SetIndexCached(arridx,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary,level+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -144,7 +151,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 			}
 		case BSON_EmbeddedDocument:
 			element = value.SetIndexCached(arridx,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element,level+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -298,7 +305,7 @@ func NewValueFromBson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	root := c.getValue(VT_Object)
-	_,_,err := parseBsonDocument(b,c,sharebinary,root)
+	_,_,err := parseBsonDocument(b,c,sharebinary,root,0)
 	if err != nil{
 		return nil, err
 	}
diff --git a/dxvalue.go b/dxvalue.go
index 045c6fa..57e323c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -335,7 +335,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	v.Reset(VT_Object)
-	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v,0)
 	if err != nil{
 		v.Clear()
 	}
-- 
2.43.0


From 37197094b84914bc7a518f40eb2dd3032848bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:06 +0000
Subject: [PATCH 53/59] fix: limit the nesting of YAML sequences on one line so
 hostile input cannot exhaust the stack

---
 yamlparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 9c7d0bc..8a19848 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -137,6 +137,9 @@ func (parser *yamlParser)parseArray(parent *yamlNode,dataLine []byte,spaceCount
 	if err := parser.asContainer(parent,VT_Array,dataLine);err != nil{
 		return err
 	}
+	if len(parser.fParsingValues) > maxNestLevel{
+		return ErrNestTooDeep
+	}
 	//数组元素内容的位置
 	valueSpace := spaceCount + 1
 	dataLine = dataLine[1:]
-- 
2.43.0


From 40610fa6ea3138e3a4b7607ae5176dbd8f919ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:31 +0000
Subject: [PATCH 54/59] fix: limit what YAML aliases may expand to so nested
 aliases cannot exhaust memory

---
 yamlparse.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 8a19848..788ef18 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
 	"sync"
@@ -25,11 +26,16 @@ type yamlParser struct {
 	parseData			[]byte
 	fParsingValues		[]yamlNode			//正在解析中的Value
 	useageValues		[]strkv	//引用值信息
+	aliasCount			int		//引用复制的值的总数
 }
 
+//一个文档中引用复制的值的总数上限
+const maxYamlAlias = 1 << 18
+
 
 var(
 	yamlparserPool	sync.Pool
+	ErrYamlAlias = errors.New("too many values copied by yaml aliases")
 )
 
 func newyamParser()*yamlParser  {
@@ -52,6 +58,7 @@ func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
 	parser.root = nil
 	parser.fparentCache = nil
+	parser.aliasCount = 0
 	for i := 0;i<len(parser.fParsingValues);i++{
 		parser.fParsingValues[i].v = nil
 	}
@@ -213,6 +220,9 @@ func (parser *yamlParser)mergeObject(currentValue *DxValue,dataLine,key,value []
 				}
 				merged = useage != nil && useage.DataType == VT_Object
 				if merged{
+					if err := parser.useAlias(useage);err != nil{
+						return false,err
+					}
 					currentValue.AddFrom(useage,parser.fparentCache)
 				}
 			}
@@ -279,6 +289,24 @@ func (parser *yamlParser)isParsing(v *DxValue)bool  {
 	return false
 }
 
+//引用每次都会复制一份，引用中再引用，内容会成倍的增长，总数必须有限制
+func (parser *yamlParser)useAlias(v *DxValue)error  {
+	parser.aliasCount += valueCount(v)
+	if parser.aliasCount > maxYamlAlias{
+		return ErrYamlAlias
+	}
+	return nil
+}
+
+func valueCount(v *DxValue)int  {
+	count := 1
+	v.Visit(func(Key string, value *DxValue) bool {
+		count += valueCount(value)
+		return true
+	})
+	return count
+}
+
 func isYamlNum(vstr []byte)bool  {
 	hasDigit := false
 	for i := 0;i<len(vstr);i++{
@@ -337,6 +365,9 @@ func (parser *yamlParser)parseStringValue(node *yamlNode,vstr []byte,isfirst boo
 			if parser.isParsing(useage){
 				return fmt.Errorf("无效的Yaml格式：%s",string(vstr))
 			}
+			if err := parser.useAlias(useage);err != nil{
+				return err
+			}
 			target.CopyFrom(useage,parser.fparentCache)
 			return nil
 		}
-- 
2.43.0


From 9e354cbbe1433b99189d7e2e650fcde446951a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 55/59] fix: nil members of objects are null in JSON and do not
 break merging, like nil elements of arrays

---
 dxvalue.go   |  5 +++--
 jsonparse.go | 12 ++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 57e323c..2c9a280 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -459,9 +459,10 @@ func mergeObject(parentpath string,v,value *DxValue,mergefunc MergeFunc)  {
 			mergeOp = mergefunc(keyPath,oldv,newv)
 		}
 		if mergeOp == MO_Normal{
-			if oldv.DataType == VT_Object && newv.DataType == VT_Object{
+			hasValue := oldv != nil && newv != nil //没有值的，和null一样处理
+			if hasValue && oldv.DataType == VT_Object && newv.DataType == VT_Object{
 				mergeObject(keyPath,oldv,newv,mergefunc)
-			}else if oldv.DataType == VT_Array && newv.DataType == VT_Array{
+			}else if hasValue && oldv.DataType == VT_Array && newv.DataType == VT_Array{
 				mergeArray(oldv,newv)
 			}else{
 				//合并成数组
diff --git a/jsonparse.go b/jsonparse.go
index 1816ea2..6ba60c8 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -686,7 +686,11 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			}
 
 			dst = append(dst,`":`...)
-			dst = Value2Json(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst)
+			if v.fobject.strkvs[i].V != nil{
+				dst = Value2Json(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst)
+			}else{
+				dst = append(dst,'n','u','l','l')
+			}
 		}
 		dst = append(dst,'}')
 	case VT_String:
@@ -807,7 +811,11 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			}
 			dst = append(dst,`":`...)
-			dst = formatValue(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst,level+1)
+			if v.fobject.strkvs[i].V != nil{
+				dst = formatValue(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst,level+1)
+			}else{
+				dst = append(dst,'n','u','l','l')
+			}
 		}
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
-- 
2.43.0


From 33093d466d8937946de1ea0510004d4028b00e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 56/59] fix: converting a document with nil children to Go
 values treats them as null instead of panicking

---
 reflect_parse.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 9ffa628..3b33bcc 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -25,9 +25,12 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 
 //将value的内容转换到fvalue中，类型不匹配的返回false
 func decodeValue2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)bool  {
+	if value == nil{
+		value = valueNull //没有值的，和null一样处理
+	}
 	tp := fvalue.Type()
 	if tp.Kind() == reflect.Ptr{
-		if value == nil || value.DataType == VT_NULL{
+		if value.DataType == VT_NULL{
 			fvalue.Set(reflect.Zero(tp))
 			return true
 		}
@@ -1045,6 +1048,9 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			return false
 		}
 		v.Visit(func(Key string, mapvalue *DxValue) bool {
+			if mapvalue == nil{
+				mapvalue = valueNull
+			}
 			value[Key] = mapvalue.String()
 			return true
 		})
@@ -1069,7 +1075,11 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			return false
 		}
 		for i := 0;i<len(value) && i<len(v.farr);i++{
-			value[i] = v.farr[i].String()
+			if v.farr[i] != nil{
+				value[i] = v.farr[i].String()
+			}else{
+				value[i] = valueNull.String()
+			}
 		}
 		return len(value) >= len(v.farr)
 	default:
-- 
2.43.0


From 4cd74e91e73ce53cf35f6a09c94c615835b6604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 57/59] fix: converting to a struct ignoring case fills the
 field of exactly the member's name

A struct with two fields that differ only in case lost one of them: both
members went into the first field.
---
 reflect_parse.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 3b33bcc..f4062c5 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -10,14 +10,21 @@ import (
 
 func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bool,valueType reflect.Type) {
 	value.Visit(func(Key string, childvalue *DxValue) bool {
+		fldIndex := -1
 		for i := 0;i<valueType.NumField();i++{
 			fld := valueType.Field(i)
-			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
-				if childreflectv := fvalue.Field(i);childreflectv.CanSet(){
-					decodeValue2reflect(childreflectv,childvalue,ignoreCase)
-				}
+			if Key == fld.Name{ //名称完全一样的优先
+				fldIndex = i
 				break
 			}
+			if fldIndex < 0 && ignoreCase && strings.EqualFold(Key,fld.Name){
+				fldIndex = i
+			}
+		}
+		if fldIndex >= 0{
+			if childreflectv := fvalue.Field(fldIndex);childreflectv.CanSet(){
+				decodeValue2reflect(childreflectv,childvalue,ignoreCase)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From acb03629b3db04ad9ca8de3ef90bb12ceaf39a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:44 +0000
Subject: [PATCH 58/59] fix: byte slices a document is converted to are the
 caller's own on every route

ToStdValue into a *[]byte and into an empty interface handed out the
document's own memory, so writing into the result changed the document
(and the input of a shared decode); fields of structs already got a copy.
---
 reflect_parse.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index f4062c5..fb8991e 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -87,7 +87,7 @@ func decodeValue2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)boo
 		if value.DataType == VT_NULL{
 			fvalue.Set(reflect.Zero(tp))
 		}else if tp.Elem().Kind() == reflect.Uint8 && (value.DataType == VT_Binary || value.DataType == VT_ExBinary){
-			fvalue.SetBytes(append([]byte{},value.Binary()...))
+			fvalue.SetBytes(binaryCopy(value))
 		}else{
 			return decodeArray2reflect(fvalue,value,ignoreCase)
 		}
@@ -167,7 +167,7 @@ func stdValue(v *DxValue,ignoreCase bool)interface{}  {
 	case VT_Float:
 		return v.Float()
 	case VT_Binary,VT_ExBinary:
-		return v.Binary()
+		return binaryCopy(v)
 	case VT_True:
 		return true
 	case VT_False:
@@ -180,6 +180,14 @@ func stdValue(v *DxValue,ignoreCase bool)interface{}  {
 	return nil
 }
 
+//转换出去的二进制内容是调用者自己的，不能和文档共享，不是二进制的返回nil
+func binaryCopy(v *DxValue)[]byte  {
+	if v.DataType != VT_Binary && v.DataType != VT_ExBinary{
+		return nil
+	}
+	return append([]byte{},v.Binary()...)
+}
+
 //空接口和空指针描述的是null
 func isNilValue(value interface{})bool  {
 	reflectv := reflect.ValueOf(value)
@@ -1041,7 +1049,7 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 	case *string:
 		*value = v.String()
 	case *[]byte:
-		*value = v.Binary()
+		*value = binaryCopy(v)
 	case *bool:
 		*value = v.Bool()
 	case *time.Time:
-- 
2.43.0


From 2969d5d1ce5511a5bb551ee4694db5f90554ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:14 +0000
Subject: [PATCH 59/59] fix: CopyFrom and AddFrom lost content when the value
 lies inside the source

---
 dxvalue.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 2c9a280..de2b5c0 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -624,10 +624,31 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	return rootv
 }
 
+//是否包含子孙节点
+func (v *DxValue)contains(node *DxValue)bool  {
+	if v == nil{
+		return false
+	}
+	for i := range v.fobject.strkvs{
+		if kid := v.fobject.strkvs[i].V;kid == node || kid.contains(node){
+			return true
+		}
+	}
+	for _,kid := range v.farr{
+		if kid == node || kid.contains(node){
+			return true
+		}
+	}
+	return false
+}
+
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 	if v.ReadOnly(){
 		return
 	}
+	if fromv.contains(v){ //自己在来源的里面，来源会跟着变
+		fromv = fromv.clone(nil)
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -655,6 +676,9 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	if v == fromv || v.ReadOnly(){
 		return
 	}
+	if fromv.contains(v){ //自己在来源的里面，来源会跟着变
+		fromv = fromv.clone(nil)
+	}
 	v.Reset(fromv.DataType)
 	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
-- 
2.43.0

