package harness

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var mpKinds = []Kind{KNull, KBool, KInt, KInt, KFloat, KDouble, KString, KString, KBin, KExt, KExt, KTime}

func mpTree(t *rapid.T, kinds []Kind, depth int) *M {
	m := drawTree(t, &treeOpts{kinds: kinds, depth: depth, wide: true, big: true})
	// type -1 with these sizes is the timestamp extension, i.e. a date-time
	m.walk(func(n *M) {
		if n.K == KExt && n.Ext == 0xff {
			switch len(n.Bin) {
			case 4, 8, 12:
				n.Ext = 0xfe
			}
		}
	})
	return m
}

// doubled replaces the library's nan / inf constants by the doubles that stand for them in binary formats.
func doubled(m *M) *M {
	m = m.clone()
	m.walk(func(n *M) {
		switch n.K {
		case KNaN:
			n.K, n.F = KDouble, math.NaN()
		case KInf:
			n.K, n.F = KDouble, math.Inf(1)
		}
	})
	return m
}

func interestingBin(m *M) bool {
	ok := m.depth() >= 3
	m.walk(func(n *M) {
		switch n.K {
		case KExt, KBin, KTime, KFloat, KDouble:
			ok = true
		case KInt:
			ok = ok || n.I < 0 || n.I > 127
		case KString:
			ok = ok || len(n.S) > 31
		case KArr, KObj:
			ok = ok || len(n.Kids) > 15
		}
	})
	return ok
}

func kindClasses(c *Case, m *M) {
	seen := map[Kind]bool{}
	m.walk(func(n *M) {
		if !seen[n.K] {
			seen[n.K] = true
			c.Class("has " + n.K.String())
		}
	})
}

func drawPrefix(t *rapid.T) (prefix, dst []byte) {
	prefix = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "prefix")
	if rare(t, "bigPrefix", 5) {
		prefix = fillBytes(pick(t, "prefixLen", 30, 64, 250, 1000, 4096, 70000), 3)
	}
	if len(prefix) == 0 {
		if rapid.Bool().Draw(t, "emptyDst") {
			return nil, make([]byte, 0, rapid.IntRange(0, 64).Draw(t, "cap"))
		}
		return nil, nil
	}
	return prefix, append(make([]byte, 0, len(prefix)+rapid.IntRange(0, 64).Draw(t, "cap")), prefix...)
}

// anySource builds m by API calls or by decoding it from one of the given formats.
func anySource(t *rapid.T, m *M, formats string) *dx.DxValue {
	how := rapid.IntRange(0, len(formats)+1).Draw(t, "source")
	if how < 2 {
		return build(m, drawRnd(t, "route"))
	}
	cached, share := rapid.Bool().Draw(t, "srcCached"), rapid.Bool().Draw(t, "srcShare")
	var v *dx.DxValue
	var err error
	switch formats[how-2] {
	case 'j':
		v, err = dx.NewValueFromJson(renderJSON(m, drawRnd(t, "spelling")), cached, share)
	case 'm':
		v, err = dx.NewValueFromMsgPack(mpEncode(nil, m, drawRnd(t, "spelling")), cached, share)
	case 'b':
		v, err = dx.NewValueFromBson(bsonEncode(nil, m, drawRnd(t, "spelling")), cached, share)
	}
	if err != nil {
		t.Fatalf("decoding the source document failed: %v\n%s", err, m)
	}
	if rapid.Bool().Draw(t, "peek") {
		observe(v, drawRnd(t, "look"))
	}
	return v
}

// hugeArray: an array of more than 2^24 one-byte items, as MsgPack.
func hugeArray(t *rapid.T) (b []byte, want func(i int) byte) {
	n := 1<<24 + pick(t, "hugeN", 0, 1, 255, 65536)
	items := []byte{0xc0, 0xc2, 0xc3, 0xc3, 0xc0, 0xc0, 0xc2}
	b = make([]byte, n+5)
	copy(b, []byte{0xdd, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	for i := 0; i < n; i++ {
		b[i+5] = items[i%len(items)]
	}
	return b, func(i int) byte { return items[i%len(items)] }
}

// hugeObject: members around the counts at which length prefixes change form.
func hugeObject(t *rapid.T, sizes ...int) *M {
	n := pick(t, "hugeMembers", sizes...)
	m := &M{K: KObj, Keys: make([]string, n), Kids: make([]*M, n)}
	for i := range m.Keys {
		m.Keys[i] = "k" + strconv.Itoa(i)
		m.Kids[i] = &M{K: KInt, I: int64(i % 100)}
	}
	return m
}

// checkHugeObject encodes a huge object and has an independent decoder read it.
func checkHugeObject(t *rapid.T, c *Case, format string) {
	m := hugeObject(t, 32767, 32768, 65535, 65536, 65536, 65537, 70000)
	c.Class("object of tens of thousands of members")
	c.NonTrivial(true, len(m.Keys), format)
	v, err := dx.NewValueFromJson(renderJSON(m, nil), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share"))
	if err != nil {
		t.Fatalf("JSON object of %d members rejected: %v", len(m.Keys), err)
	}
	var b, rest []byte
	var got *M
	switch format {
	case "json":
		b = v.ToJson(rapid.Bool().Draw(t, "formatted"), dx.JSE_OnlyAnsiChar, false, nil)
		got, err = stdJSON(b)
	case "msgpack":
		b = v.ToMsgPack(nil)
		got, rest, _, err = mpDecode(b)
	case "bson":
		b = v.ToBson(nil)
		got, rest, _, err = bsonDecode(b)
	}
	if err != nil || len(rest) > 0 {
		t.Fatalf("%s of an object of %d members is not well-formed: %v, %d bytes behind it, starts %x", format, len(m.Keys), err, len(rest), b[:min(len(b), 12)])
	}
	if d := diff(m, got, cmpMode{}); d != "" {
		t.Fatalf("%s of an object of %d members denotes another document: %s", format, len(m.Keys), d)
	}
}

func checkHuge(t *rapid.T, c *Case, cached, share bool) {
	b, want := hugeArray(t)
	c.Class("array beyond 2^24 items")
	v, err := dx.NewValueFromMsgPack(b, cached, share)
	if err != nil {
		t.Fatalf("well-formed MsgPack array of %d items rejected: %v", len(b)-5, err)
	}
	if v.Count() != len(b)-5 {
		t.Fatalf("a MsgPack array of %d items decodes to %d", len(b)-5, v.Count())
	}
	types := map[byte]dx.ValueType{0xc0: dx.VT_NULL, 0xc2: dx.VT_False, 0xc3: dx.VT_True}
	for i := 0; i < v.Count(); i += 1 + i%11 {
		if x := v.ValueByIndex(i); x == nil || x.Type() != types[want(i)] {
			t.Fatalf("item %d of a MsgPack array of %d items is not a %v", i, v.Count(), types[want(i)])
		}
	}
	if out := v.ToMsgPack(nil); !bytes.Equal(out, b) {
		t.Fatalf("array of %d items encodes to %d bytes, starting %x", len(b)-5, len(out), out[:min(len(out), 12)])
	}
	dx.FreeValue(v)
	c.NonTrivial(true, len(b), cached, share)
}

func TestC04(t *testing.T) {
	run(t, "document trees of every MsgPack-representable type (all length-prefix boundaries up to 64K+1, extensions of 0..64K bytes, date-times before and after 1970, nan/inf), built by random API routes or decoded from MsgPack; oracle: an independent decoder written from the MsgPack specification; non-trivial: contains a binary, extension, date-time, float, multi-byte integer, string over 31 bytes, container over 15 items, or nests >=3 levels",
		func(t *rapid.T, c *Case) {
			if rare(t, "hugeArray", 14) {
				checkHuge(t, c, rapid.Bool().Draw(t, "cached"), false)
				return
			}
			if rare(t, "hugeObject", 11) {
				checkHugeObject(t, c, "msgpack")
				return
			}
			nanInf := chance(t, "nanInf", 6)
			kinds := mpKinds
			if nanInf {
				kinds = append([]Kind{KNaN, KInf}, mpKinds...)
			}
			m := mpTree(t, kinds, 4)
			var v *dx.DxValue
			if nanInf {
				v = build(m, drawRnd(t, "route"))
			} else {
				v = anySource(t, m, "m")
			}
			prefix, dst := drawPrefix(t)
			c.NonTrivial(interestingBin(m), m.String())
			kindClasses(c, m)
			c.Sample(m.String)
			doing("ToMsgPack of %s", m)
			var out []byte
			if rapid.Bool().Draw(t, "method") {
				out = v.ToMsgPack(dst)
			} else {
				out = dx.Value2MsgPack(v, dst)
			}
			if len(out) < len(prefix) || string(out[:len(prefix)]) != string(prefix) {
				t.Fatalf("bytes already in dst not kept: %x, prefix %x", out[:min(len(out), 100)], prefix)
			}
			out = out[len(prefix):]
			got, rest, soft, err := mpDecode(out)
			if err != nil || soft != nil {
				t.Fatalf("output is not well-formed MsgPack: %v %v\n%x\nof %s", err, soft, out[:min(len(out), 500)], m)
			}
			if len(rest) != 0 {
				t.Fatalf("%d stray bytes after the object: %x", len(rest), rest[:min(len(rest), 100)])
			}
			if d := diff(doubled(m), got, cmpMode{anyBin: true}); d != "" {
				t.Fatalf("encoded document differs: %s\noutput: %x", d, out[:min(len(out), 500)])
			}
			// every item in its shortest form, as the specification asks of serializers
			if short := mpEncode(nil, doubled(m), nil); len(out) > len(short) {
				t.Fatalf("not the shortest form: %d bytes instead of %d\noutput: %x\nshort: %x", len(out), len(short), out[:min(len(out), 500)], short[:min(len(short), 500)])
			}
		})
}

func TestC05(t *testing.T) {
	run(t, "document trees of every MsgPack type encoded by an independent encoder that picks any admissible representation (fix/8/16/32 length forms, signed or unsigned integers of any width, 32/64/96-bit timestamps, fixext or ext8/16/32); non-trivial: as C04",
		func(t *rapid.T, c *Case) {
			if rare(t, "hugeArray", 14) {
				checkHuge(t, c, rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share"))
				return
			}
			m, huge := mpTree(t, mpKinds, 4), false
			if rare(t, "hugeObject", 15) { // reading takes quadratic time
				m = hugeObject(t, 32768, 32768, 33000, 40000, 65535, 65536)
				huge = true
				c.Class("object of tens of thousands of members")
			}
			b := mpEncode(nil, m, drawRnd(t, "forms"))
			ref, rest, soft, err := mpDecode(b)
			if err != nil || soft != nil || len(rest) > 0 || diff(m, ref, cmpMode{}) != "" {
				panic(fmt.Sprintf("harness: reference MsgPack codec disagrees with itself: %v %v %s", err, soft, diff(m, ref, cmpMode{})))
			}
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			c.NonTrivial(interestingBin(m), b)
			kindClasses(c, m)
			c.ClassIf(cached, "cached")
			c.ClassIf(share, "shared buffer")
			c.Sample(func() string { return fmt.Sprintf("%s = %x", clip(m.String(), 300), b[:min(len(b), 120)]) })
			in := append([]byte(nil), b...)
			doing("NewValueFromMsgPack(%x)", b)
			var v *dx.DxValue
			if rapid.Bool().Draw(t, "load") {
				v = dx.NewObject(cached)
				err = v.LoadFromMsgPack(in, share)
			} else {
				v, err = dx.NewValueFromMsgPack(in, cached, share)
			}
			if err != nil || v == nil {
				t.Fatalf("well-formed MsgPack rejected: %v\n%x", err, b[:min(len(b), 500)])
			}
			look := drawRnd(t, "look")
			if huge {
				look = nil
			}
			if d := diff(m, observe(v, look), cmpMode{}); d != "" {
				t.Fatalf("decoded document differs: %s\ninput: %x", d, b[:min(len(b), 500)])
			}
			if string(in) != string(b) {
				t.Fatalf("input buffer modified")
			}
			if cached {
				dx.FreeValue(v)
			}
		})
}

var mpTokens = func() (out [][]byte) {
	for i := 0xc0; i < 0xe0; i++ {
		out = append(out, []byte{byte(i)})
	}
	for _, s := range []string{"\x80", "\x81", "\x8f", "\x90", "\x91", "\x9f", "\xa0", "\xa1a", "\xbf", "\x00", "\xff", "\xff\xff\xff\xff", "\x7f\xff\xff\xff", "\x80\x00\x00\x00", "\x00\x00\x00\x01", "\x00\x00", "\xde\xff\xff", "\xdf\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff", "\xdd\x7f\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff\x01", "\xc7\x0c\xff", "\xd6\xff", "\xd7\xff", "\xc7\x04\xff", "\xc7\x08\xff", "\xc8\x00\x0c\xff", "\xc9\x00\x00\x00\x0c\xff", "\xc7\x00\xff", "\xd9\xff", "\xda\xff\xff"} {
		out = append(out, []byte(s))
	}
	return
}()

func nearBinary(t *rapid.T, valid func() []byte, tokens [][]byte) ([]byte, string) {
	switch rapid.IntRange(0, 3).Draw(t, "near") {
	case 0:
		n := rapid.IntRange(0, 10).Draw(t, "n")
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, tokens[rapid.IntRange(0, len(tokens)-1).Draw(t, "tok")]...)
		}
		return b, "token soup"
	case 1:
		return mutate(t, valid(), tokens), "mutated document"
	case 2:
		b := valid()
		if len(b) == 0 {
			return b, "truncated document"
		}
		return b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")], "truncated document"
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes"), "random bytes"
}

// usedValue is some value with former content, for loads into it.
func usedValue(t *rapid.T) *dx.DxValue {
	var v *dx.DxValue
	tp := pick(t, "usedType", dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Binary, dx.VT_DateTime, dx.VT_Float, dx.VT_Double, dx.VT_ExBinary, dx.VT_True, dx.VT_NULL, dx.VT_NAN)
	first := tp
	if tp >= dx.VT_NULL {
		first = dx.VT_Int // a constant of one's own
	}
	if rapid.Bool().Draw(t, "usedCached") {
		v = dx.NewCacheValue(first)
	} else {
		v = dx.NewValue(first)
	}
	if chance(t, "usedLoaded", 4) { // formerly loaded from some format
		switch rapid.IntRange(0, 4).Draw(t, "usedFrom") {
		case 0:
			v.LoadFromJson([]byte("{\"esc\\u0041ped\":[1.5,\"q\\n\",{\"x\":null}],\"old\":true}"), true)
		case 1:
			v.LoadFromMsgPack([]byte{0x93, 0xc4, 3, 9, 9, 9, 0xd4, 5, 1, 0x81, 0xa3, 'o', 'l', 'd', 0xc3}, rapid.Bool().Draw(t, "usedShare"))
		case 2:
			v.LoadFromBson([]byte{0x14, 0, 0, 0, 7, 'o', 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0}, true)
		case 3:
			v.LoadFromYaml([]byte("old:\n  - 1\n  - older: x\n"))
		case 4:
			v.LoadFromMsgPack([]byte{0xc7, 12, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 9, 9, 9, 9}, false)
		}
		return v
	}
	if tp != first {
		v.Reset(tp)
	}
	switch v.Type() {
	case dx.VT_Float:
		v.SetFloat(1.5)
	case dx.VT_Double:
		v.SetDouble(2.25)
	case dx.VT_ExBinary:
		v.SetExtType(7)
		v.SetBinary([]byte("former"), true)
	case dx.VT_DateTime:
		v.SetTime(time.UnixMilli(1234567890123))
	case dx.VT_Object:
		v.SetKeyInt("old", 1)
		v.SetKey("older", dx.VT_Array).SetIndexString(0, "x")
	case dx.VT_Array:
		v.SetIndexInt(0, 7)
		v.SetIndexString(1, "former")
	case dx.VT_String:
		v.SetString("former")
	case dx.VT_Int:
		v.SetInt(99)
	case dx.VT_Binary:
		v.SetBinary([]byte("former"), true)
	}
	return v
}

// stillUsable exercises a value after a failed load and then loads something valid into it.
func stillUsable(t *rapid.T, v *dx.DxValue) {
	observe(v, nil)
	v.ToJson(true, dx.JSE_OnlyAnsiChar, true, nil)
	v.ToMsgPack(nil)
	_ = v.String()
	v.Clone(false)
	if err := v.LoadFromJson([]byte(`{"a":[1,"x",null]}`), false); err != nil {
		t.Fatalf("a value cannot be loaded again after a failed load: %v", err)
	}
	want := &M{K: KObj, Keys: []string{"a"}, Kids: []*M{{K: KArr, Kids: []*M{{K: KInt, I: 1}, {K: KString, S: "x"}, {K: KNull}}}}}
	if d := diff(want, observe(v, nil), cmpMode{}); d != "" {
		t.Fatalf("a valid load after a failed one gives something else: %s", d)
	}
}

func TestC06(t *testing.T) {
	run(t, "token soups of format codes and huge lengths, byte-mutated and truncated MsgPack documents, random bytes; oracle: the reference decoder says which inputs are truncated or use an invalid code (must be rejected) and which are supported objects (must be accepted as that document); non-trivial: input the reference decoder rejects, or a mutated one it still accepts",
		func(t *rapid.T, c *Case) {
			if rare(t, "veryDeep", 12) {
				cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
				b, how, accept, reject := drawDeep(t, c, mpDeep)
				checkDeep(t, how, accept, reject, b, func(b []byte) (*dx.DxValue, error) { return dx.NewValueFromMsgPack(b, cached, share) },
					func(v *dx.DxValue, b []byte) error { return v.LoadFromMsgPack(b, share) })
				c.NonTrivial(true, how)
				c.Sample(func() string { return how })
				return
			}
			var b []byte
			var how string
			if chance(t, "deep", 400) { // deep nesting and long runs
				unit := pick(t, "unit", "\x91", "\x81\xa1a", "\xdd\x00\x00\x00\x01", "\xdd\x00\x00\x00\x02", "\xc0", "\xdc\xff\xff")
				n := pick(t, "levels", 100, 1000, 20000)
				for i := 0; i < n; i++ {
					b = append(b, unit...)
				}
				how = "deep nesting"
			} else {
				b, how = nearBinary(t, func() []byte { return mpEncode(nil, mpTree(t, mpKinds, 3), drawRnd(t, "forms")) }, mpTokens)
			}
			c.Class(how)
			ref, _, soft, rerr := mpDecode(b)
			mustReject := rerr != nil && soft == nil
			mustAccept := rerr == nil && soft == nil && !hasDupKeys(ref)
			c.ClassIf(mustReject, "must reject")
			c.ClassIf(mustAccept, "must accept")
			c.NonTrivial(mustReject || how == "mutated document", b)
			c.Sample(func() string { return fmt.Sprintf("%s: %x (reference: %v)", how, b[:min(len(b), 120)], rerr) })
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			in := append([]byte(nil), b...)
			doing("NewValueFromMsgPack(%x,%v,%v)", b, cached, share)
			v, err := dx.NewValueFromMsgPack(in, cached, share)
			if err == nil && v == nil {
				t.Fatalf("neither value nor error for %x", b)
			}
			if err != nil {
				_ = err.Error()
			}
			if mustReject && err == nil {
				t.Fatalf("malformed MsgPack (%v) accepted: %x -> %s", rerr, b, observe(v, nil))
			}
			if mustAccept {
				if err != nil {
					t.Fatalf("well-formed MsgPack rejected: %v\n%x", err, b[:min(len(b), 500)])
				}
				if how == "mutated document" && !hasOddTime(ref) {
					if d := diff(ref, observe(v, drawRnd(t, "look")), cmpMode{}); d != "" {
						t.Fatalf("decoded document differs: %s\ninput: %x", d, b[:min(len(b), 500)])
					}
				}
			}
			if err == nil && how != "deep nesting" {
				observe(v, nil)
				v.ToMsgPack(nil)
				v.ToJson(false, dx.JSE_OnlyAnsiChar, false, nil)
			}
			dst := usedValue(t)
			doing("LoadFromMsgPack(%x)", b)
			err2 := dst.LoadFromMsgPack(in, share)
			if len(b) > 0 && (err2 == nil) != (err == nil) {
				t.Fatalf("NewValueFromMsgPack says %v, LoadFromMsgPack says %v for %x", err, err2, b)
			}
			if string(in) != string(b) {
				t.Fatalf("input buffer modified")
			}
			if err2 != nil {
				stillUsable(t, dst)
			}
		})
}

// hasOddTime: date-times outside the range / wall-clock readings the library represents.
func hasOddTime(m *M) bool {
	odd := false
	m.walk(func(n *M) {
		if n.K == KTime && (n.I < minTimeMs || n.I > maxTimeMs || !wallIsUnique(n.I)) {
			odd = true
		}
	})
	return odd
}
