package harness

import (
	"bytes"
	"fmt"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// format: one serial form the library reads.
type format struct {
	name  string
	valid func(t *rapid.T) []byte
	bad   [][]byte // tokens for mutations
	fresh func(b []byte, cached, share bool) (*dx.DxValue, error)
	load  func(v *dx.DxValue, b []byte, share bool) error
}

var formats = []format{
	{"json", func(t *rapid.T) []byte {
		return renderJSON(drawTree(t, &treeOpts{kinds: jsonKinds, depth: 3, maxFan: 4, mid: true}), drawRnd(t, "spelling"))
	}, jsonTokens, dx.NewValueFromJson, func(v *dx.DxValue, b []byte, share bool) error {
		if !share && len(b)%3 == 0 {
			return dx.Unmarshal(b, v)
		}
		return v.LoadFromJson(b, share)
	}},
	{"msgpack", func(t *rapid.T) []byte {
		m := drawTree(t, &treeOpts{kinds: mpKinds, depth: 3, maxFan: 4, mid: true})
		fixExt(m)
		return mpEncode(nil, m, drawRnd(t, "spelling"))
	}, mpTokens, dx.NewValueFromMsgPack, func(v *dx.DxValue, b []byte, share bool) error { return v.LoadFromMsgPack(b, share) }},
	{"bson", func(t *rapid.T) []byte {
		return bsonEncode(nil, bsonTreeOf(t, &treeOpts{kinds: bsonKinds, depth: 3, wide: true, mid: true}, true), drawRnd(t, "spelling"))
	}, bsonTokens, dx.NewValueFromBson, func(v *dx.DxValue, b []byte, share bool) error { return v.LoadFromBson(b, share) }},
	{"yaml", func(t *rapid.T) []byte {
		b, _, _ := drawYAML(t)
		return b
	}, yamlTokens, func(b []byte, cached, share bool) (*dx.DxValue, error) { return dx.NewValueFromYaml(b, cached) },
		func(v *dx.DxValue, b []byte, share bool) error { return v.LoadFromYaml(b) }},
}

// sameValue compares two library values by everything that can be seen of them.
func sameValue(a, b *dx.DxValue) string {
	if x, y := a.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil), b.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil); !bytes.Equal(x, y) {
		return fmt.Sprintf("JSON %q vs %q", clip(string(x), 400), clip(string(y), 400))
	}
	if x, y := a.ToMsgPack(nil), b.ToMsgPack(nil); !bytes.Equal(x, y) {
		return fmt.Sprintf("MsgPack %x vs %x", clip(string(x), 400), clip(string(y), 400))
	}
	if a.Type() == dx.VT_Object {
		if x, y := a.ToBson(nil), b.ToBson(nil); !bytes.Equal(x, y) {
			return fmt.Sprintf("BSON %x vs %x", clip(string(x), 400), clip(string(y), 400))
		}
	}
	if !a.Equal(b) || !b.Equal(a) {
		return "not Equal"
	}
	if d := diff(observe(a, nil), observe(b, nil), cmpMode{}); d != "" {
		return d
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("type %v vs %v", a.Type(), b.Type())
	}
	return stampDiff2(a, b)
}

func TestC12(t *testing.T) {
	run(t, "histories of 1..6 loads (JSON, MsgPack, BSON, YAML; valid, mutated or truncated; shared buffer or not) into one cached or uncached value of any former type, with edits, clears and resets in between; oracle: a fresh decode of the same bytes, compared by all encodings, Equal, every read and extension types; non-trivial: at least two loads of which one succeeds",
		func(t *rapid.T, c *Case) {
			v := usedValue(t)
			n := rapid.IntRange(1, 6).Draw(t, "loads")
			if rare(t, "longHistory", 8) {
				n = rapid.IntRange(40, 300).Draw(t, "manyLoads")
				c.Class("hundreds of loads")
			}
			var log []string
			oks := 0
			e := &editor{}
			for i := 0; i < n; i++ {
				f := formats[rapid.IntRange(0, len(formats)-1).Draw(t, "format")]
				var b []byte
				how := rapid.IntRange(0, 5).Draw(t, "how")
				switch how {
				case 0:
					b = mutate(t, f.valid(t), f.bad)
				case 1:
					b = f.valid(t)
					if len(b) > 0 {
						b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
					}
				default:
					b = f.valid(t)
				}
				if len(b) == 0 || (f.name == "json" || f.name == "yaml") && len(bytes.Trim(b, " \t\r\n")) == 0 {
					// an empty input is no document: refused, or an empty value
					log = append(log, fmt.Sprintf("load %s %q", f.name, b))
					doing("%v", log)
					if f.load(v, b, rapid.Bool().Draw(t, "share")) == nil {
						if m := observe(v, nil); len(m.Kids) > 0 || len(m.Bin) > 0 || len(m.S) > 0 || m.I != 0 && m.K == KInt || m.F != 0 {
							t.Fatalf("loading nothing leaves former content visible: %s\n%q", m, log)
						}
						c.Class("load of nothing")
					}
					continue
				}
				share := rapid.Bool().Draw(t, "share")
				log = append(log, fmt.Sprintf("load %s %q share=%v", f.name, clip(string(b), 200), share))
				doing("%v", log)
				err := f.load(v, append([]byte(nil), b...), share)
				want, werr := f.fresh(append([]byte(nil), b...), rapid.Bool().Draw(t, "freshCached"), share)
				if (err == nil) != (werr == nil) {
					t.Fatalf("fresh decode says %v, load says %v\n%q", werr, err, log)
				}
				c.Class("load " + f.name)
				if err == nil {
					oks++
					if d := sameValue(want, v); d != "" {
						t.Fatalf("loaded value differs from a fresh decode: %s\n%q", d, log)
					}
				} else {
					c.Class("failed load")
					observe(v, drawRnd(t, "look"))
					v.ToJson(true, dx.JSE_OnlyAnsiChar, true, nil)
					v.ToMsgPack(nil)
					_ = v.String()
					if rapid.Bool().Draw(t, "tryAgain") {
						stillUsable(t, v)
					}
				}
				switch rapid.IntRange(0, 5).Draw(t, "between") {
				case 0:
					v.Clear()
					log = append(log, "clear")
				case 1:
					tp := pick(t, "type", dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Binary, dx.VT_NULL, dx.VT_True, dx.VT_ExBinary)
					v.Reset(tp)
					log = append(log, fmt.Sprint("reset to ", tp))
				case 2, 3:
					m := observe(v, nil)
					for k := rapid.IntRange(1, 4).Draw(t, "edits"); k > 0; k-- {
						e.step(t, v, m)
					}
					log = append(log, "edits "+e.String())
					e.log = nil
				}
			}
			c.NonTrivial(n >= 2 && oks > 0, fmt.Sprint(log))
			c.Sample(func() string { return fmt.Sprint(log) })
		})
}

var commonKinds = []Kind{KNull, KBool, KInt, KInt, KDouble, KFloat, KString, KString, KTime}

func TestC13(t *testing.T) {
	run(t, "object documents of nulls, booleans, 64-bit integers, floats, doubles, strings, date-times, objects and arrays taken through 1..6 encode/decode steps in random order of JSON (compact or formatted, either escaping, escaped dates), MsgPack and BSON, cached or not, shared buffer or not, by fresh decode or load into a used value, reading in between or not; oracle: the original document; non-trivial: at least two different formats and a document with nesting, escapes, doubles or date-times",
		func(t *rapid.T, c *Case) {
			m := drawTree(t, &treeOpts{kinds: commonKinds, depth: 3, maxFan: 5, wide: true, root: []Kind{KObj}, key: bsonKey})
			v := build(m, drawRnd(t, "route"))
			n := rapid.IntRange(1, 6).Draw(t, "steps")
			if rare(t, "longHistory", 8) {
				n = rapid.IntRange(20, 60).Draw(t, "manySteps")
			}
			var log []string
			used := map[int]bool{}
			for i := 0; i < n; i++ {
				f := rapid.IntRange(0, 2).Draw(t, "format")
				used[f] = true
				share, cached := rapid.Bool().Draw(t, "share"), rapid.Bool().Draw(t, "cached")
				var b []byte
				doing("step %d (%v) of %s", i, log, m)
				switch f {
				case 0:
					if chance(t, "marshal", 5) {
						var err error
						if b, err = dx.Marshal(v); err != nil {
							t.Fatalf("Marshal: %v of %s", err, m)
						}
						break
					}
					b = v.ToJson(rapid.Bool().Draw(t, "formatted"), pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape), true, nil)
				case 1:
					b = v.ToMsgPack(nil)
				case 2:
					b = v.ToBson(nil)
				}
				log = append(log, formats[f].name)
				var got *M // what an independent decoder makes of it
				var rest []byte
				var soft, rerr error
				switch f {
				case 0:
					got, rerr = stdJSON(b)
				case 1:
					got, rest, soft, rerr = mpDecode(b)
				case 2:
					got, rest, soft, rerr = bsonDecode(b)
				}
				if rerr != nil || soft != nil || len(rest) > 0 {
					t.Fatalf("step %d: the %s output is not well-formed: %v %v, %d bytes behind it\nsteps %v of %s\n%q", i, formats[f].name, rerr, soft, len(rest), log, m, clip(string(b), 800))
				}
				if d := diff(m, got, cmpMode{numeric: true, textBin: f == 0}); d != "" {
					t.Fatalf("step %d: the %s output denotes another document: %s\nsteps %v of %s\n%q", i, formats[f].name, d, log, m, clip(string(b), 800))
				}
				if f == 2 {
					if d := stampDiff(m, got); d != "" {
						t.Fatalf("step %d: the BSON output denotes another document: %s\nsteps %v of %s\n%q", i, d, log, m, clip(string(b), 800))
					}
				}
				if rapid.Bool().Draw(t, "free") {
					dx.FreeValue(v)
				}
				var err error
				if rapid.Bool().Draw(t, "load") {
					v = usedValue(t)
					err = formats[f].load(v, b, share)
				} else {
					v, err = formats[f].fresh(b, cached, share)
				}
				if err != nil {
					t.Fatalf("step %d: own %s output rejected: %v\nsteps %v of %s\n%q", i, formats[f].name, err, log, m, clip(string(b), 800))
				}
				if rapid.Bool().Draw(t, "peek") {
					observe(v, drawRnd(t, "look"))
				}
			}
			if d := diff(m, observe(v, drawRnd(t, "look2")), cmpMode{numeric: true}); d != "" {
				t.Fatalf("after %v: %s\nof %s", log, d, m)
			}
			c.Class(fmt.Sprintf("%d formats", len(used)))
			kindClasses(c, m)
			c.NonTrivial(len(used) >= 2 && (interestingJSON(m) || interestingBin(m)), m.String(), fmt.Sprint(log))
			c.Sample(func() string { return fmt.Sprint(log, " ", m) })
		})
}
