package harness

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var constDoc = &M{K: KObj, Keys: []string{"t", "f", "n", "l"}, Kids: []*M{{K: KBool, B: true}, {K: KBool}, {K: KNull},
	{K: KArr, Kids: []*M{{K: KBool, B: true}, {K: KBool}, {K: KNull}, {K: KObj, Keys: []string{"deep"}, Kids: []*M{{K: KBool, B: true}}}}}}}

var constDocX = &M{K: KObj, Keys: []string{"t", "nan", "inf", "l"}, Kids: []*M{{K: KBool, B: true}, {K: KNaN}, {K: KInf},
	{K: KArr, Kids: []*M{{K: KNaN}, {K: KInf}, {K: KBool}, {K: KNull}}}}}

// constSource: a document full of constants, from a random source.
func constSource(t *rapid.T) (*dx.DxValue, *M, string) {
	cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
	var v *dx.DxValue
	var err error
	m := constDoc
	src := pick(t, "src", "build", "build", "json", "msgpack", "bson", "clone", "goval", "yaml")
	switch src {
	case "build":
		if rapid.Bool().Draw(t, "nanInf") {
			m = constDocX
		}
		v = build(m, drawRnd(t, "route"))
	case "json":
		v, err = dx.NewValueFromJson(renderJSON(m, nil), cached, share)
	case "msgpack":
		v, err = dx.NewValueFromMsgPack(mpEncode(nil, m, nil), cached, share)
	case "bson":
		v, err = dx.NewValueFromBson(bsonEncode(nil, m, nil), cached, share)
	case "clone":
		if rapid.Bool().Draw(t, "nanInf") {
			m = constDocX
		}
		v = build(m, drawRnd(t, "route")).Clone(cached)
	case "goval":
		v = dx.NewObject(cached)
		v.SetKeyvalue("t", true, nil)
		v.SetKeyvalue("f", false, nil)
		v.SetKeyvalue("n", nil, nil)
		v.SetKeyvalue("l", []interface{}{true, false, nil, map[string]bool{"deep": true}}, nil)
	case "yaml":
		m = &M{K: KObj, Keys: []string{"t", "f", "n"}, Kids: constDoc.Kids[:3]}
		v, err = dx.NewValueFromYaml([]byte("t: true\nf: false\nn: null\n"), cached)
	}
	if err != nil {
		t.Fatalf("%s: decoding constants: %v", src, err)
	}
	if d := diff(m, observe(v, nil), cmpMode{}); d != "" {
		t.Fatalf("%s document of constants came out wrong: %s", src, d)
	}
	return v, m, src
}

// abuse applies one random API call to value c.
func abuse(t *rapid.T, c *dx.DxValue, other *dx.DxValue) string {
	r := drawRnd(t, "abuseRoute")
	leaf := drawLeaf(t, pick(t, "leafKind", KInt, KFloat, KDouble, KString, KBin, KTime), &treeOpts{})
	what := ""
	switch rapid.IntRange(0, 33).Draw(t, "call") {
	case 0:
		what = "SetInt"
		c.SetInt(7)
	case 1:
		what = "SetString"
		c.SetString("changed")
	case 2:
		what = "SetBool"
		c.SetBool(rapid.Bool().Draw(t, "b"))
	case 3:
		what = "SetDouble"
		c.SetDouble(2.5)
	case 4:
		what = "SetFloat"
		c.SetFloat(1.5)
	case 5:
		what = "SetTime"
		c.SetTime(time.UnixMilli(1))
	case 6:
		what = "SetDelphiTime"
		c.SetDelphiTime(45000.5)
	case 7:
		what = "SetBinary"
		c.SetBinary([]byte("bin"), r.n(2) == 0)
	case 8:
		what = "SetExtType"
		c.SetExtType(9)
	case 9:
		what = "Clear"
		c.Clear()
	case 10:
		tp := pick(t, "tp", dx.VT_Object, dx.VT_Array, dx.VT_String, dx.VT_Int, dx.VT_Binary, dx.VT_ExBinary, dx.VT_True, dx.VT_False, dx.VT_NULL, dx.VT_NAN, dx.VT_INF, dx.VT_DateTime, dx.VT_Double)
		what = fmt.Sprint("Reset ", tp)
		c.Reset(tp)
	case 11:
		what = "LoadFromJson"
		c.LoadFromJson([]byte(pick(t, "json", `{"a":1}`, `[1,2]`, `"x"`, `5`, `true`, `null`, `{"a":`, `x`)), r.n(2) == 0)
	case 12:
		what = "LoadFromMsgPack"
		c.LoadFromMsgPack(mpEncode(nil, pick(t, "mp", constDoc, leaf), nil), r.n(2) == 0)
	case 13:
		what = "LoadFromBson"
		c.LoadFromBson(bsonEncode(nil, constDoc, nil), r.n(2) == 0)
	case 14:
		what = "LoadFromYaml"
		c.LoadFromYaml([]byte("a: 1\nb: x\n"))
	case 15:
		what = "SetKey"
		if n := c.SetKey("k", vt(leaf)); n != nil && !n.ReadOnly() {
			fill(n, leaf, r)
		}
	case 16:
		what = "SetKeyX"
		c.SetKeyInt("k", 1)
		c.SetKeyString("k", "s")
		c.SetKeyBool("k", true)
		c.SetKeyDouble("k", 1.5)
		c.SetKeyFloat("k", 1.5)
		c.SetKeyTime("k", time.UnixMilli(5))
	case 17:
		what = "SetIndexX"
		c.SetIndexInt(0, 1)
		c.SetIndexString(0, "s")
		c.SetIndexBool(0, true)
		c.SetIndexDouble(0, 1.5)
		c.SetIndexFloat(0, 1.5)
		c.SetIndexTime(0, time.UnixMilli(5))
	case 18:
		what = "SetIndex"
		if n := c.SetIndex(rapid.IntRange(-1, 1).Draw(t, "i"), vt(leaf)); n != nil && !n.ReadOnly() {
			fill(n, leaf, r)
		}
	case 19:
		what = "SetKeyValue"
		c.SetKeyValue("k", build(leaf, r))
	case 20:
		what = "SetIndexValue"
		c.SetIndexValue(0, build(leaf, r))
	case 21:
		what = "Append"
		c.Append(vt(leaf))
	case 22:
		what = "InsertValue"
		c.InsertValue(0, vt(leaf))
	case 23:
		what = "ForcePath"
		c.ForcePath(vt(leaf), "a", "b")
	case 24:
		what = "MergeWith"
		op := pick(t, "mergeOp", dx.MO_Replace, dx.MO_Normal, dx.MO_Custom)
		c.MergeWith(other, func(string, *dx.DxValue, *dx.DxValue) dx.MergeOp { return op })
	case 25:
		what = "CopyFrom"
		c.CopyFrom(other, nil)
	case 26:
		what = "AddFrom"
		c.AddFrom(other, nil)
	case 27:
		what = "SetValue"
		c.SetValue(pick[interface{}](t, "goval", 1, "x", true, false, nil, 2.5, []int{1}, map[string]int{"a": 1}, []byte("x"), time.UnixMilli(9), struct{ A int }{3}, uint8(3)))
	case 28:
		what = "SetKeyvalue/SetIndexvalue"
		c.SetKeyvalue("k", []interface{}{1, "x"}, nil)
		c.SetIndexvalue(0, map[string]interface{}{"a": 1}, nil)
	case 29:
		what = "Remove/Extract"
		c.RemoveKey("k")
		c.RemoveIndex(0)
		c.ExtractValue("k")
	case 30:
		what = "FreeValue"
		dx.FreeValue(c)
	case 31:
		what = "reads"
		_, _, _, _, _, _ = c.Int(), c.Double(), c.String(), c.Bool(), c.GoTime(), c.Binary()
		c.Clone(true)
		c.Equal(other)
		_ = c.ToJson(true, dx.JSE_AllEscape, true, nil)
	case 32:
		what = "SetBinaryFromFile"
		c.SetBinaryFromFile("/dev/null")
	case 33:
		what = "SetKeyCached/SetIndexCached"
		c.SetKeyCached("k", vt(leaf), other.ValueCache())
		c.SetIndexCached(0, vt(leaf), other.ValueCache())
	}
	return what
}

func constWitness(v *dx.DxValue, m *M, r *rnd) string {
	if d := diff(m, observe(v, r), cmpMode{}); d != "" {
		return d
	}
	// typed readings and encodings of each constant
	for i, k := range m.Kids {
		n := v.ValueByIndex(i)
		switch k.K {
		case KBool:
			want := int64(0)
			txt := "false"
			if k.B {
				want, txt = 1, "true"
			}
			if n.Int() != want || n.Bool() != k.B || n.String() != txt || n.Double() != float64(want) || string(n.ToJson(false, 0, false, nil)) != txt {
				return fmt.Sprintf("constant %s reads as %d/%v/%q/%v", txt, n.Int(), n.Bool(), n.String(), n.Double())
			}
		case KNull:
			if n.Int() != 0 || n.Bool() || n.String() != "null" || string(n.ToJson(false, 0, false, nil)) != "null" || !bytes.Equal(n.ToMsgPack(nil), []byte{0xc0}) {
				return fmt.Sprintf("null reads as %d/%v/%q", n.Int(), n.Bool(), n.String())
			}
		}
		if n.Count() != 0 && !k.isContainer() || n.BinLen() != 0 || n.ExtType != 0 && k.K != KBool {
			return fmt.Sprintf("constant %v grew content", k)
		}
	}
	if !hasKind(m, KNaN, KInf) {
		if d, rest, _, err := mpDecode(v.ToMsgPack(nil)); err != nil || len(rest) > 0 {
			return fmt.Sprint("MsgPack: ", err, len(rest))
		} else if d := diff(m, d, cmpMode{}); d != "" {
			return "MsgPack: " + d
		}
		if d, err := stdJSON(v.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil)); err != nil {
			return "JSON: " + err.Error()
		} else if d := diff(m, d, cmpMode{numeric: true}); d != "" {
			return "JSON: " + d
		}
	}
	return ""
}

func TestC25(t *testing.T) {
	run(t, "two witness documents full of true, false, null, nan and inf from any source (API, JSON, MsgPack, BSON, YAML, clone, Go values) and a third whose constants, at random places, get 1..8 random API calls each (setters, loads, resets, merges, copies, binary and time setters, frees) directly or after being extracted, re-attached, fetched with NewValue or handed to another document; oracle: the witnesses' model, fresh constants, every typed read and encoding; non-trivial: at least two calls on at least one constant",
		func(t *rapid.T, c *Case) {
			w1, m1, s1 := constSource(t)
			w2, m2, s2 := constSource(t)
			var log []string
			calls := 0
			for round := rapid.IntRange(1, 2).Draw(t, "rounds"); round > 0; round-- {
				v, m, s3 := constSource(t)
				var node *dx.DxValue
				how := rapid.IntRange(0, 4).Draw(t, "reach")
				switch how {
				case 0, 1:
					i := rapid.IntRange(0, len(m.Kids)-1).Draw(t, "child")
					node = v.ValueByIndex(i)
					if m.Kids[i].K == KArr {
						node = node.ValueByIndex(rapid.IntRange(0, 2).Draw(t, "item"))
					}
				case 2:
					node = v.ExtractValue(pick(t, "extract", "t", "t", m.Keys[1], m.Keys[2]))
					if node == nil {
						node = v.ValueByIndex(0)
					}
				case 3:
					node = dx.NewValue(pick(t, "newType", dx.VT_True, dx.VT_False, dx.VT_NULL, dx.VT_NAN, dx.VT_INF))
				case 4:
					node = dx.NewCacheValue(pick(t, "newType", dx.VT_True, dx.VT_False, dx.VT_NULL, dx.VT_NAN, dx.VT_INF))
				}
				if rapid.Bool().Draw(t, "reattach") {
					h := dx.NewObject(false)
					h.SetKeyValue("x", node)
					node = h.ValueByName("x")
				}
				other := build(pick(t, "other", constDoc, constDocX, &M{K: KObj, Keys: []string{"t", "q"}, Kids: []*M{{K: KInt, I: 5}, {K: KArr, Kids: []*M{{K: KInt, I: 1}}}}},
					&M{K: KArr, Kids: []*M{{K: KBool, B: true}, {K: KString, S: "x"}}}, &M{K: KString, S: "other"}, &M{K: KBin, Bin: []byte("other")}), drawRnd(t, "otherRoute"))
				log = append(log, fmt.Sprintf("on a constant of a %s document (reach %d):", s3, how))
				for k := rapid.IntRange(1, 8).Draw(t, "calls"); k > 0; k-- {
					if node == nil {
						break
					}
					doing("%v", log)
					log = append(log, abuse(t, node, other))
					calls++
					// setters on the parent that replace a constant
					if how < 2 && chance(t, "viaParent", 4) {
						e := &editor{noRoot: true}
						mm := observe(v, nil)
						if mm.isContainer() {
							e.step(t, v, mm)
							log = append(log, "edit of the document: "+e.String())
						}
					}
					if d := constWitness(w1, m1, nil); d != "" {
						t.Fatalf("another %s document changed: %s\nafter %s", s1, d, strings.Join(log, ", "))
					}
				}
			}
			if d := constWitness(w2, m2, drawRnd(t, "look")); d != "" {
				t.Fatalf("another %s document changed: %s\nafter %s", s2, d, strings.Join(log, ", "))
			}
			for _, m := range []*M{constDoc, constDocX} {
				if d := constWitness(build(m, drawRnd(t, "fresh")), m, nil); d != "" {
					t.Fatalf("a new document's constants are wrong: %s\nafter %s", d, strings.Join(log, ", "))
				}
			}
			if v, err := dx.NewValueFromJson(renderJSON(constDoc, nil), true, false); err != nil || constWitness(v, constDoc, nil) != "" {
				t.Fatalf("newly decoded constants are wrong: %v %s\nafter %s", err, v, strings.Join(log, ", "))
			}
			c.Class("witness " + s1)
			c.NonTrivial(calls >= 2, fmt.Sprint(log), s1, s2)
			c.Sample(func() string { return strings.Join(log, ", ") })
		})
}
