package harness

import (
	"fmt"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var bsonKinds = []Kind{KNull, KBool, KInt, KInt, KDouble, KString, KString, KBin, KBin, KTime}

func bsonKey(t *rapid.T, label string) string {
	return strings.ReplaceAll(drawKey(t, label), "\x00", "0")
}

// fromBson: the tree may hold what only a BSON producer makes (subtypes, timestamps, object ids, decimals).
func bsonTree(t *rapid.T, kinds []Kind, depth int, fromBson bool) *M {
	return bsonTreeOf(t, &treeOpts{kinds: kinds, depth: depth, wide: true, big: true}, fromBson)
}

func bsonTreeOf(t *rapid.T, o *treeOpts, fromBson bool) *M {
	o.root, o.key = []Kind{KObj}, bsonKey
	m := drawTree(t, o)
	if fromBson {
		var leaves []*M
		m.walk(func(n *M) {
			if n.K == KBin || n.K == KInt {
				leaves = append(leaves, n)
			}
		})
		if len(leaves) > 64 {
			leaves = leaves[:64]
		}
		for _, n := range leaves {
			if n.K == KInt {
				if chance(t, "timestamp", 6) {
					n.Ext = 0x11
				}
				continue
			}
			switch rapid.IntRange(0, 5).Draw(t, "binFlavour") {
			case 3:
				n.K, n.Ext = KExt, pick[byte](t, "sub", 1, 3, 4, 5, 6, 7, 8, 9, 0x7f, 0x80, 0xff)
			case 4:
				n.Ext, n.Bin = 7, fillBytes(12, rapid.IntRange(-6, 9).Draw(t, "oid"))
			case 5:
				n.Ext, n.Bin = 0x13, fillBytes(16, rapid.IntRange(-6, 9).Draw(t, "dec"))
			}
		}
	}
	return m
}

// floatsAsDoubles: BSON has only one float type.
func floatsAsDoubles(m *M) *M {
	m = doubled(m)
	m.walk(func(n *M) {
		if n.K == KFloat {
			n.K = KDouble
		}
	})
	return m
}

// stamps adds the timestamp flavour of integers to an observed tree.
func observeBson(v *dx.DxValue, r *rnd) *M {
	m := observe(v, r)
	markStamps(v, m)
	return m
}

func markStamps(v *dx.DxValue, m *M) {
	switch m.K {
	case KInt:
		m.Ext = v.ExtType
	case KObj, KArr:
		for i, k := range m.Kids {
			markStamps(v.ValueByIndex(i), k)
		}
	}
}

func stampDiff(a, b *M) string {
	if a.K == KInt && a.Ext != b.Ext {
		return fmt.Sprintf("integer flavour: want %#x, got %#x", a.Ext, b.Ext)
	}
	for i := range a.Kids {
		if d := stampDiff(a.Kids[i], b.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func TestC07(t *testing.T) {
	run(t, "object documents of every BSON-representable type (boundary lengths, negative and 64-bit integers, 32-bit floats, date-times, binaries, object ids, decimals, timestamps, nan/inf) built by random API routes or decoded from BSON; oracle: an independent decoder written from the BSON specification; non-trivial: as C04",
		func(t *rapid.T, c *Case) {
			if rare(t, "hugeObject", 11) {
				checkHugeObject(t, c, "bson")
				return
			}
			var m *M
			var v *dx.DxValue
			if rapid.Bool().Draw(t, "fromBson") {
				m = bsonTree(t, bsonKinds, 4, true)
				var err error
				v, err = dx.NewValueFromBson(bsonEncode(nil, m, drawRnd(t, "forms")), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share"))
				if err != nil {
					t.Fatalf("decoding the source document failed: %v\n%s", err, m)
				}
				if rapid.Bool().Draw(t, "cloned") {
					v = v.Clone(rapid.Bool().Draw(t, "cloneCached"))
				}
				c.Class("decoded from BSON")
			} else {
				kinds := append([]Kind{KFloat}, bsonKinds...)
				if chance(t, "nanInf", 6) {
					kinds = append([]Kind{KNaN, KInf}, kinds...)
				}
				m = bsonTree(t, kinds, 4, false)
				v = build(m, drawRnd(t, "route"))
			}
			prefix, dst := drawPrefix(t)
			c.NonTrivial(interestingBin(m), m.String())
			kindClasses(c, m)
			c.Sample(m.String)
			doing("ToBson of %s", m)
			var out []byte
			if rapid.Bool().Draw(t, "method") {
				out = v.ToBson(dst)
			} else {
				var err error
				out, err = dx.Value2Bson(v, dst)
				if err != nil {
					t.Fatalf("Value2Bson: %v", err)
				}
			}
			if len(out) < len(prefix) || string(out[:len(prefix)]) != string(prefix) {
				t.Fatalf("bytes already in dst not kept: %x, prefix %x", out[:min(len(out), 100)], prefix)
			}
			out = out[len(prefix):]
			got, rest, soft, err := bsonDecode(out)
			if err != nil || soft != nil {
				t.Fatalf("output is not well-formed BSON: %v %v\n%x\nof %s", err, soft, out[:min(len(out), 500)], m)
			}
			if len(rest) != 0 {
				t.Fatalf("%d stray bytes after the document: %x", len(rest), rest[:min(len(rest), 100)])
			}
			want := floatsAsDoubles(m)
			if d := diff(want, got, cmpMode{}); d != "" {
				t.Fatalf("encoded document differs: %s\noutput: %x", d, out[:min(len(out), 500)])
			}
			if d := stampDiff(want, got); d != "" {
				t.Fatalf("encoded document differs: %s\noutput: %x", d, out[:min(len(out), 500)])
			}
		})
}

func TestC08(t *testing.T) {
	run(t, "object documents of every BSON type the reader supports (all binary subtypes, timestamps, object ids, decimals, int32 and int64 forms, empty documents and arrays) encoded by an independent encoder; non-trivial: as C04",
		func(t *rapid.T, c *Case) {
			m := bsonTree(t, bsonKinds, 4, true)
			b := bsonEncode(nil, m, drawRnd(t, "forms"))
			ref, rest, soft, err := bsonDecode(b)
			if err != nil || soft != nil || len(rest) > 0 || diff(m, ref, cmpMode{}) != "" {
				panic(fmt.Sprintf("harness: reference BSON codec disagrees with itself: %v %v %s", err, soft, diff(m, ref, cmpMode{})))
			}
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			c.NonTrivial(interestingBin(m), b)
			kindClasses(c, m)
			c.ClassIf(cached, "cached")
			c.ClassIf(share, "shared buffer")
			c.Sample(func() string { return fmt.Sprintf("%s = %x", clip(m.String(), 300), b[:min(len(b), 120)]) })
			in := append([]byte(nil), b...)
			doing("NewValueFromBson(%x)", b)
			var v *dx.DxValue
			if rapid.Bool().Draw(t, "load") {
				v = dx.NewArray(cached)
				err = v.LoadFromBson(in, share)
			} else {
				v, err = dx.NewValueFromBson(in, cached, share)
			}
			if err != nil || v == nil {
				t.Fatalf("well-formed BSON rejected: %v\n%x", err, b[:min(len(b), 500)])
			}
			got := observeBson(v, drawRnd(t, "look"))
			if d := diff(m, got, cmpMode{}); d != "" {
				t.Fatalf("decoded document differs: %s\ninput: %x", d, b[:min(len(b), 500)])
			}
			if d := stampDiff(m, got); d != "" {
				t.Fatalf("decoded document differs: %s\ninput: %x", d, b[:min(len(b), 500)])
			}
			if string(in) != string(b) {
				t.Fatalf("input buffer modified")
			}
			if cached {
				dx.FreeValue(v)
			}
		})
}

var bsonTokens = func() (out [][]byte) {
	for i := 0; i < 0x15; i++ {
		out = append(out, []byte{byte(i)}, []byte{byte(i), 'k', 0})
	}
	for _, s := range []string{"\x05\x00\x00\x00\x00", "\x05\x00\x00\x00", "\x06\x00\x00\x00", "\x0d\x00\x00\x00", "\x00\x00\x00\x00", "\xff\xff\xff\xff", "\xff\xff\xff\x7f", "\x00\x00\x00\x80", "\x04\x00\x00\x00", "\x01\x00\x00\x00\x00", "\x7fk\x00", "\xffk\x00", "\x020\x00", "\x03k\x00\x05\x00\x00\x00\x00", "\x04k\x00\x05\x00\x00\x00\x00", "\x05k\x00\xff\xff\xff\xff\x02", "\x05k\x00\x00\x00\x00\x00\x02", "\x041\x00", "\x80", "-1\x00", "99999999999999999999\x00"} {
		out = append(out, []byte(s))
	}
	return
}()

func TestC09(t *testing.T) {
	run(t, "token soups, byte-mutated (lengths, terminators, type bytes) and truncated BSON documents, random bytes, documents with a wrong outer length, arrays with odd index names; oracle: the reference decoder says which inputs are truncated, malformed or use an unsupported content-bearing type (must be rejected) and which are supported documents (must be accepted as that document); non-trivial: input the reference decoder rejects, or a mutated one it still accepts",
		func(t *rapid.T, c *Case) {
			if rare(t, "veryDeep", 12) {
				cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
				b, how, accept, reject := deepBson(t, c)
				checkDeep(t, how, accept, reject, b, func(b []byte) (*dx.DxValue, error) { return dx.NewValueFromBson(b, cached, share) },
					func(v *dx.DxValue, b []byte) error { return v.LoadFromBson(b, share) })
				c.NonTrivial(true, how)
				c.Sample(func() string { return how })
				return
			}
			valid := func() []byte { return bsonEncode(nil, bsonTree(t, bsonKinds, 3, true), drawRnd(t, "forms")) }
			var b []byte
			var how string
			switch {
			case chance(t, "deep", 400):
				n := pick(t, "levels", 100, 1000, 5000)
				m := &M{K: KObj}
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						m = &M{K: KObj, Keys: []string{"k"}, Kids: []*M{m}}
					} else {
						m = &M{K: KObj, Keys: []string{"k"}, Kids: []*M{{K: KArr, Kids: []*M{m}}}}
					}
				}
				b, how = bsonEncode(nil, m, nil), "deep nesting"
			case chance(t, "relen", 5): // body mutated, outer length repaired
				b, how = nearBinary(t, valid, bsonTokens)
				if len(b) >= 4 {
					b[0], b[1], b[2], b[3] = byte(len(b)), byte(len(b)>>8), byte(len(b)>>16), byte(len(b)>>24)
				}
				how += ", outer length fixed"
			case chance(t, "badname", 10): // an array whose elements are not all named by numbers
				how = "odd array index names"
				var body []byte
				for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
					name := fmt.Sprint(i)
					if rapid.Bool().Draw(t, "odd") {
						name = pick(t, "name", "", "a", "x1", "1a", "0x1", "null", "1e3", "00", fmt.Sprint(i+1), "7", "99999999999999999999")
					}
					body = append(append(append(body, 0x10), name...), 0, byte(i), 0, 0, 0)
				}
				arr := append(append([]byte{byte(len(body) + 5), 0, 0, 0}, body...), 0)
				el := append([]byte{0x04, 'k', 0}, arr...)
				b = append(append([]byte{byte(len(el) + 5), 0, 0, 0}, el...), 0)
			case chance(t, "badlen", 5):
				b, how = valid(), "wrong outer length"
				d := rapid.IntRange(-8, 8).Draw(t, "delta")
				n := len(b) + d
				b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
			default:
				b, how = nearBinary(t, valid, bsonTokens)
			}
			c.Class(how)
			ref, rest, soft, rerr := bsonDecode(b)
			mustReject := rerr != nil
			mustAccept := rerr == nil && soft == nil && len(rest) == 0 && !hasDupKeys(ref)
			c.ClassIf(mustReject, "must reject")
			c.ClassIf(mustAccept, "must accept")
			c.NonTrivial(mustReject || how == "mutated document", b)
			c.Sample(func() string { return fmt.Sprintf("%s: %x (reference: %v)", how, b[:min(len(b), 120)], rerr) })
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			in := append([]byte(nil), b...)
			doing("NewValueFromBson(%x,%v,%v)", b, cached, share)
			v, err := dx.NewValueFromBson(in, cached, share)
			if err == nil && v == nil {
				t.Fatalf("neither value nor error for %x", b)
			}
			if err != nil {
				_ = err.Error()
			}
			if mustReject && err == nil {
				t.Fatalf("malformed BSON (%v) accepted: %x -> %s", rerr, b, observe(v, nil))
			}
			if mustAccept {
				if err != nil {
					t.Fatalf("well-formed BSON rejected: %v\n%x", err, b[:min(len(b), 500)])
				}
				if !hasOddTime(ref) && how != "deep nesting" {
					if d := diff(ref, observe(v, drawRnd(t, "look")), cmpMode{}); d != "" {
						t.Fatalf("decoded document differs: %s\ninput: %x", d, b[:min(len(b), 500)])
					}
				}
			}
			if err == nil && how != "deep nesting" {
				observe(v, nil)
				v.ToBson(nil)
				v.ToMsgPack(nil)
				v.ToJson(false, dx.JSE_OnlyAnsiChar, false, nil)
			}
			dst := usedValue(t)
			doing("LoadFromBson(%x)", b)
			err2 := dst.LoadFromBson(in, share)
			if len(b) > 0 && (err2 == nil) != (err == nil) {
				t.Fatalf("NewValueFromBson says %v, LoadFromBson says %v for %x", err, err2, b)
			}
			if string(in) != string(b) {
				t.Fatalf("input buffer modified")
			}
			if err2 != nil {
				stillUsable(t, dst)
			}
		})
}
