package harness

import (
	"bytes"
	"fmt"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

func scribble(b []byte, r *rnd) {
	c := b[:cap(b)]
	for i := range c {
		switch r.n(3) {
		case 0:
			c[i] = 0xff
		case 1:
			c[i] ^= 0x20
		default:
			c[i] = byte(r.n(256))
		}
	}
}

// encodings of a value, each by a random route
func encodeAny(t *rapid.T, v *dx.DxValue, dst []byte) (string, []byte) {
	switch rapid.IntRange(0, 5).Draw(t, "encoder") {
	case 0:
		return "json", v.ToJson(false, pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape, dx.JSE_NoEscape), rapid.Bool().Draw(t, "dates"), dst)
	case 1:
		return "json formatted", v.ToJson(true, pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape, dx.JSE_NoEscape), rapid.Bool().Draw(t, "dates"), dst)
	case 2:
		return "msgpack", v.ToMsgPack(dst)
	case 3:
		if v.Type() == dx.VT_Object {
			return "bson", v.ToBson(dst)
		}
		return "msgpack", v.ToMsgPack(dst)
	case 4:
		b, err := dx.Marshal(v)
		if err != nil {
			t.Fatalf("Marshal: %v", err)
		}
		return "marshal", b
	}
	return "json", dx.Value2Json(v, dx.JSE_AllEscape, true, dst)
}

func TestC21(t *testing.T) {
	run(t, "documents decoded (JSON, MsgPack, BSON, YAML; fresh or loaded into a used value; cached or not) with sharing off whose input buffer is then overwritten, with sharing on and then edited and encoded; binaries set from caller slices by every cloning setter followed by overwriting on either side; encodings kept, overwritten and appended to while more documents are encoded; oracle: a decode of a private copy of the input, the untouched input, the bytes first returned; non-trivial: an input or encoding of more than 8 bytes was overwritten and the document was read or edited afterwards",
		func(t *rapid.T, c *Case) {
			f := formats[rapid.IntRange(0, len(formats)-1).Draw(t, "format")]
			b := f.valid(t)
			if chance(t, "oneBigLeaf", 6) { // a long string or binary, as the root or a member
				n := (1 << uint(rapid.IntRange(6, 14).Draw(t, "leafPow"))) + rapid.IntRange(-2, 40).Draw(t, "leafOff")
				leaf := &M{K: KString, S: fillStr(n, 1)}
				if f.name == "msgpack" || f.name == "bson" {
					switch rapid.IntRange(0, 2).Draw(t, "leafKind") {
					case 1:
						leaf = &M{K: KBin, Bin: fillBytes(n, 2)}
					case 2:
						leaf = &M{K: KExt, Ext: 5, Bin: fillBytes(n, 3)}
					}
				}
				m := leaf
				switch w := rapid.IntRange(0, 3).Draw(t, "leafAt"); {
				case w == 1 || f.name == "bson":
					m = &M{K: KObj, Keys: []string{"k"}, Kids: []*M{leaf}}
				case w == 2:
					m = &M{K: KArr, Kids: []*M{leaf, {K: KInt, I: 1}}}
				case w == 3 && leaf.K == KString:
					m = &M{K: KObj, Keys: []string{leaf.S}, Kids: []*M{{K: KInt, I: 1}}}
				}
				switch f.name {
				case "json":
					b = renderJSON(m, drawRnd(t, "leafSpelling"))
				case "msgpack":
					b = mpEncode(nil, m, drawRnd(t, "leafSpelling"))
				case "bson":
					b = bsonEncode(nil, m, drawRnd(t, "leafSpelling"))
				}
				c.Class("one long leaf")
			}
			if f.name == "yaml" && len(bytes.Trim(b, " \t\r\n")) == 0 {
				b = []byte("a: 1\n")
			}
			spare := rapid.IntRange(0, 16).Draw(t, "spare")
			in := append(make([]byte, 0, len(b)+spare), b...)
			for i := range in[len(in):cap(in)] {
				in[:cap(in)][len(in)+i] = 0xee
			}
			share, cached := rapid.IntRange(0, 2).Draw(t, "share") == 0 && f.name != "yaml", rapid.Bool().Draw(t, "cached")
			doing("%s %q share=%v cached=%v", f.name, clip(string(b), 400), share, cached)
			twin, err := f.fresh(append([]byte(nil), b...), cached, false)
			if err != nil {
				t.Fatalf("valid %s rejected: %v\n%q", f.name, err, b)
			}
			want := observe(twin, nil)
			var v *dx.DxValue
			if rapid.Bool().Draw(t, "load") {
				v = usedValue(t)
				err = f.load(v, in, share)
			} else {
				v, err = f.fresh(in, cached, share)
			}
			if err != nil {
				t.Fatalf("valid %s rejected: %v\n%q", f.name, err, b)
			}
			checkInput := func(when string) {
				if !bytes.Equal(in, b) {
					t.Fatalf("%s wrote to the input buffer: %q became %q", when, clip(string(b), 400), clip(string(in), 400))
				}
				for i, x := range in[len(in):cap(in)] {
					if x != 0xee {
						t.Fatalf("%s wrote behind the end of the input buffer (offset %d)", when, i)
					}
				}
			}
			checkInput("decoding")
			type kept struct {
				what       string
				live, copy []byte
			}
			var ks []kept
			overwrote := 0
			e := &editor{noRoot: true}
			if rapid.Bool().Draw(t, "peek") {
				observe(v, drawRnd(t, "look"))
				checkInput("reading")
			}
			if !share && rapid.Bool().Draw(t, "scribbleNow") {
				scribble(in, drawRnd(t, "scribble"))
				overwrote += len(in)
			}
			n := rapid.IntRange(1, 8).Draw(t, "ops")
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 6).Draw(t, "op") {
				case 0, 1: // edit
					if !v.ReadOnly() && want.isContainer() {
						e.step(t, v, want)
					}
				case 2, 3: // encode, keep or overwrite
					var dst []byte
					if rapid.Bool().Draw(t, "dst") {
						dst = append(make([]byte, 0, rapid.IntRange(0, 64).Draw(t, "dstCap")+4), "pre:"...)
					}
					before := observe(v, nil)
					what, enc := encodeAny(t, v, dst)
					again := append([]byte(nil), enc...)
					if rapid.Bool().Draw(t, "keep") {
						ks = append(ks, kept{what, enc, again})
					} else {
						enc = append(enc, "trailer"...)
						scribble(enc, drawRnd(t, "scribble2"))
						overwrote += len(again)
					}
					if d := diff(before, observe(v, nil), cmpMode{}); d != "" {
						t.Fatalf("encoding (%s) and overwriting the result changed the document: %s", what, d)
					}
				case 4: // another document is decoded and encoded meanwhile
					o, err := f.fresh(append([]byte(nil), b...), rapid.Bool().Draw(t, "otherCached"), false)
					if err != nil {
						t.Fatalf("valid %s rejected: %v", f.name, err)
					}
					_, enc := encodeAny(t, o, nil)
					scribble(enc, drawRnd(t, "scribble3"))
					dx.FreeValue(o)
				case 5: // binaries of the caller
					src := drawBytes(t, "src", false)
					orig := append([]byte(nil), src...)
					host := dx.NewObject(rapid.Bool().Draw(t, "hostCached"))
					how := rapid.IntRange(0, 5).Draw(t, "setter")
					if chance(t, "untyped", 6) {
						how = 7
					}
					if rapid.Bool().Draw(t, "over") { // over a former binary of another length
						former := drawBytes(t, "former", false)
						x := host.SetKey("b", dx.VT_Binary)
						x.SetBinary(former, rapid.Bool().Draw(t, "formerClone"))
						host.SetKey("a", dx.VT_Array).SetIndex(0, dx.VT_Binary).SetBinary(former, true)
						if how == 5 {
							how = 6
						}
					}
					switch how {
					case 0:
						host.SetKey("b", dx.VT_Binary).SetBinary(src, true)
					case 1:
						x := host.SetKey("b", dx.VT_ExBinary)
						x.SetExtType(5)
						x.SetBinary(src, true)
					case 2:
						host.SetKeyvalue("b", src, host.ValueCache())
					case 3:
						host.SetKeyvalue("b", &src, nil)
					case 4:
						host.SetKey("a", dx.VT_Array).SetIndexvalue(0, src, nil)
						host.SetKeyValue("b", host.ValueByPath("a", "0"))
					case 6:
						host.ValueByName("b").SetValue(src)
					case 7: // an extension whose type was never set
						host.SetKey("b", dx.VT_ExBinary).SetBinary(src, true)
					case 5:
						host.SetKey("b", dx.VT_NULL).SetValue(src)
						if host.ValueByName("b").Type() != dx.VT_Binary { // null is fixed: set a fresh one
							x := dx.NewValue(dx.VT_String)
							x.SetValue(src)
							host.SetKeyValue("b", x)
						}
					}
					x := host.ValueByName("b")
					if !bytes.Equal(x.Binary(), orig) {
						t.Fatalf("binary set by setter %d: %x became %x", how, orig, x.Binary())
					}
					if rapid.Bool().Draw(t, "side") {
						scribble(src, drawRnd(t, "scribble4"))
						if !bytes.Equal(x.Binary(), orig) {
							t.Fatalf("setter %d: the stored binary follows the caller's slice", how)
						}
					} else {
						scribble(x.Binary(), drawRnd(t, "scribble4"))
						if !bytes.Equal(src, orig) {
							t.Fatalf("setter %d: the caller's slice follows the stored binary", how)
						}
					}
					c.Class("caller's binary")
				case 6:
					if !share {
						scribble(in, drawRnd(t, "scribble5"))
						overwrote += len(in)
					} else {
						checkInput("editing or encoding a shared document")
					}
				}
			}
			if share {
				checkInput("editing or encoding a shared document")
				c.Class("shared")
			}
			if d := diff(want, observe(v, drawRnd(t, "look2")), cmpMode{numeric: true, anyBin: true}); d != "" {
				t.Fatalf("%s document (shared: %v) differs from what was decoded and edited: %s\ninput %q\n%s", f.name, share, d, clip(string(b), 600), e)
			}
			for _, k := range ks {
				if !bytes.Equal(k.live, k.copy) {
					t.Fatalf("a returned %s encoding changed later: %q became %q", k.what, clip(string(k.copy), 400), clip(string(k.live), 400))
				}
				c.Class("kept encoding")
			}
			c.Class(f.name)
			c.NonTrivial(overwrote > 8, f.name, b, e.String(), fmt.Sprint(n, overwrote))
			c.Sample(func() string { return fmt.Sprintf("%s %q %s", f.name, clip(string(b), 300), e) })
		})
}
