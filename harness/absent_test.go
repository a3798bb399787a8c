package harness

import (
	"fmt"
	"reflect"
	"strconv"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C29: members and elements without a value
// ---------------------------------------------------------------------------

// markAbsent turns the nil children observe reports into KAbsent.
func markAbsent(m *M) *M {
	for i, k := range m.Kids {
		if k == nil {
			m.Kids[i] = &M{K: KAbsent}
		} else {
			markAbsent(k)
		}
	}
	return m
}

// nulled: the document the encodings of m denote.
func nulled(m *M) *M {
	m = m.clone()
	m.walk(func(n *M) {
		if n.K == KAbsent {
			n.K = KNull
		}
	})
	return m
}

// drawAbsent makes some children of m absent.
func drawAbsent(t *rapid.T, m *M, oneIn int) (n int) {
	for i, k := range m.Kids {
		if chance(t, "absent", oneIn) {
			m.Kids[i] = &M{K: KAbsent}
			n++
		} else {
			n += drawAbsent(t, k, oneIn)
		}
	}
	return
}

// punch takes away the values of the children of v which m says are absent.
func punch(v *dx.DxValue, m *M, r *rnd) {
	for i, k := range m.Kids {
		switch {
		case k.K != KAbsent:
			punch(v.ValueByIndex(i), k, r)
		case m.K == KArr:
			punchElem(v, i, r)
		default:
			punchKey(v, m.Keys[i], r)
		}
	}
}

var emptyObj = dx.NewObject(false)

func punchKey(v *dx.DxValue, key string, r *rnd) {
	switch r.n(2) {
	case 0:
		v.SetKeyValue(key, nil)
	case 1: // what a lookup that finds nothing returns
		v.SetKeyValue(key, emptyObj.ValueByName("no such key"))
	}
}

func punchElem(v *dx.DxValue, i int, r *rnd) {
	switch r.n(3) {
	case 0:
		v.SetIndexValue(i, nil)
	case 1:
		v.SetIndexValue(i, emptyObj.ValueByPath("no", "such", "path"))
	case 2:
		v.SetKeyValue(strconv.Itoa(i), nil)
	}
}

// holder: a container of m, with the path to it.
type holder struct {
	m    *M
	v    *dx.DxValue
	path []string
}

func holders(m *M, v *dx.DxValue, path []string) (out []holder) {
	if !m.isContainer() {
		return nil
	}
	out = append(out, holder{m, v, path})
	for i, k := range m.Kids {
		name := strconv.Itoa(i)
		if m.K == KObj {
			name = m.Keys[i]
		}
		if k.isContainer() {
			out = append(out, holders(k, v.ValueByIndex(i), append(append([]string(nil), path...), name))...)
		}
	}
	return out
}

// goOf compares what ToStdValue made of a document with the model, where it can be told.
func goOf(m *M, x interface{}) string {
	switch m.K {
	case KAbsent, KNull:
		if x != nil {
			return fmt.Sprintf("%T instead of nil", x)
		}
	case KObj:
		o, ok := x.(map[string]interface{})
		if !ok || len(o) != len(m.Keys) {
			return fmt.Sprintf("%T of %d members instead of a map of %d", x, len(o), len(m.Keys))
		}
		for i, k := range m.Keys {
			if d := goOf(m.Kids[i], o[k]); d != "" {
				return strconv.Quote(k) + ": " + d
			}
		}
	case KArr:
		o, ok := x.([]interface{})
		if !ok || len(o) != len(m.Kids) {
			return fmt.Sprintf("%T of %d elements instead of a slice of %d", x, len(o), len(m.Kids))
		}
		for i, k := range m.Kids {
			if d := goOf(k, o[i]); d != "" {
				return strconv.Itoa(i) + ": " + d
			}
		}
	default:
		if x == nil {
			return "nil instead of a " + m.K.String()
		}
	}
	return ""
}

type mixed struct {
	A    *int
	B    interface{}
	C    string
	Name *inner
	X    []int
	K    map[string]string
	D    float64
}

var absentDests = typesOf(mixed{}, inner{}, node{}, map[string]interface{}(nil), map[string]string(nil), map[string]int(nil), map[string]*inner(nil), map[string][]int(nil),
	[]interface{}(nil), []string(nil), []int(nil), []*int(nil), []inner(nil), [3]int{}, [2]interface{}{}, []map[string]int(nil))

func TestC29(t *testing.T) {
	run(t, "object and array documents of all common types, built by random API routes or decoded from JSON, MsgPack or BSON, in which random members and elements at any level hold no value (nil, set directly or from a lookup that found nothing), under histories of typed reads, encodings, clones, copies, additions, merges, comparisons, conversions to Go values, and edits over, around and through the absent ones; oracle: a model with absent nodes, independent decoders, the same conversion of the document with null instead; non-trivial: at least two operations on a document with at least one absent child",
		func(t *rapid.T, c *Case) {
			o := &treeOpts{kinds: []Kind{KNull, KBool, KInt, KDouble, KString, KTime, KBin}, depth: 3, maxFan: 5, mid: true, key: func(t *rapid.T, l string) string {
				if rapid.Bool().Draw(t, l+"Field") {
					return pick(t, l, "A", "B", "C", "Name", "X", "K", "D", "S", "a", "Items", "When", "Data", "Any")
				}
				return bsonKey(t, l)
			}}
			formats := ""
			switch rapid.IntRange(0, 2).Draw(t, "family") {
			case 1:
				o.kinds, formats = jsonKinds, "j"
			case 2:
				o.kinds, formats = []Kind{KNull, KBool, KInt, KDouble, KString, KTime}, "mb"
			}
			root := pick(t, "root", KObj, KObj, KArr)
			if root == KArr && formats == "mb" {
				formats = "m"
			}
			m := drawNode(t, o, 3, &root)
			v := anySource(t, m, formats)
			if formats == "j" {
				m = observe(v.Clone(false), nil)
			}
			absent := drawAbsent(t, m, 4)
			punch(v, m, drawRnd(t, "punch"))
			var log []string
			say := func(f string, x ...interface{}) { log = append(log, fmt.Sprintf(f, x...)) }
			say("%s", m)
			fail := func(f string, x ...interface{}) {
				t.Helper()
				t.Fatalf("%s\nhistory: %q", fmt.Sprintf(f, x...), log)
			}
			check := func(what string, m *M, v *dx.DxValue) {
				t.Helper()
				if d := diff(m, markAbsent(observe(v, drawRnd(t, "look"))), cmpMode{}); d != "" {
					fail("%s: %s", what, d)
				}
			}
			check("after taking values away", m, v)
			n := rapid.IntRange(1, 8).Draw(t, "ops")
			seen := 0
			for i := 0; i < n; i++ {
				hs := holders(m, v, nil)
				h := hs[rapid.IntRange(0, len(hs)-1).Draw(t, "holder")]
				at := -1 // a child of h, an absent one if there is any
				if len(h.m.Kids) > 0 {
					at = rapid.IntRange(0, len(h.m.Kids)-1).Draw(t, "child")
					for j := range h.m.Kids {
						if h.m.Kids[(at+j)%len(h.m.Kids)].K == KAbsent {
							at = (at + j) % len(h.m.Kids)
							break
						}
					}
				}
				name := "none"
				if at >= 0 {
					if name = strconv.Itoa(at); h.m.K == KObj {
						name = h.m.Keys[at]
					}
				}
				op := rapid.IntRange(0, 14).Draw(t, "op")
				doing("C29 op %d at %q of %v of %s", op, name, h.path, m)
				if nulled(m).String() != m.String() {
					seen++
				}
				switch op {
				case 0: // JSON
					format, style := rapid.Bool().Draw(t, "format"), pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape)
					b := v.ToJson(format, style, rapid.Bool().Draw(t, "dates"), nil)
					if rapid.Bool().Draw(t, "string") {
						b = []byte(v.String())
					} else if chance(t, "marshal", 4) {
						var err error
						if b, err = dx.Marshal(v); err != nil {
							fail("Marshal: %v", err)
						}
					}
					say("json %v %v", format, style)
					got, err := stdJSON(b)
					if err != nil {
						fail("output is not JSON: %v: %q", err, b)
					}
					if d := diff(nulled(m), got, cmpMode{numeric: true, textBin: true}); d != "" {
						fail("JSON denotes another document: %s\n%q", d, b)
					}
				case 1:
					say("msgpack")
					b := v.ToMsgPack(nil)
					got, rest, soft, err := mpDecode(b)
					if err != nil || soft != nil || len(rest) > 0 {
						fail("output is not MsgPack: %v %v %x: %x", err, soft, rest, b)
					}
					if d := diff(doubled(nulled(m)), got, cmpMode{anyBin: true}); d != "" {
						fail("MsgPack denotes another document: %s\n%x", d, b)
					}
				case 2:
					if m.K != KObj {
						continue
					}
					say("bson")
					b := v.ToBson(nil)
					got, rest, soft, err := bsonDecode(b)
					if err != nil || soft != nil || len(rest) > 0 {
						fail("output is not BSON: %v %v %x: %x", err, soft, rest, b)
					}
					if d := diff(floatsAsDoubles(nulled(m)), got, cmpMode{}); d != "" {
						fail("BSON denotes another document: %s\n%x", d, b)
					}
				case 3: // clone or copy, compare, go on with either
					var w *dx.DxValue
					switch rapid.IntRange(0, 2).Draw(t, "copyHow") {
					case 0:
						w = v.Clone(rapid.Bool().Draw(t, "cached"))
						say("clone")
					case 1:
						w = usedValue(t)
						w.CopyFrom(v, w.ValueCache())
						say("copy")
					case 2:
						if w = dx.NewValue(v.Type()); rapid.Bool().Draw(t, "cachedTarget") {
							w = dx.NewCacheValue(v.Type())
						}
						w.AddFrom(v, w.ValueCache())
						say("add to an empty one")
					}
					check("the copy", m, w)
					if !w.Equal(v) || !v.Equal(w) {
						fail("the copy is not Equal to the original")
					}
					if at >= 0 && h.m.Kids[at].K == KAbsent { // same but for this child
						x := w.ValueByPath(h.path...)
						if len(h.path) == 0 {
							x = w
						}
						if h.m.K == KObj {
							x.SetKeyInt(name, 5)
						} else {
							x.SetIndexInt(at, 5)
						}
						if w.Equal(v) || v.Equal(w) {
							fail("Equal although %v %q is absent in one and 5 in the other", h.path, name)
						}
						check("the original after editing its copy", m, v)
					} else if rapid.Bool().Draw(t, "swap") {
						v = w
					}
				case 4: // merge, add
					o2 := *o
					if formats == "j" {
						o2.kinds = []Kind{KNull, KBool, KInt, KString}
					}
					m2 := related(t, nulled(m), &o2)
					if m2.K != m.K || !m2.isContainer() {
						continue
					}
					drawAbsent(t, m2, 4)
					w := build(nulled(m2), drawRnd(t, "route"))
					punch(w, m2, drawRnd(t, "punch2"))
					check("the other document", m2, w)
					if rapid.Bool().Draw(t, "addFrom") {
						say("add from %s", m2)
						v.AddFrom(w, nil)
						for i, k := range m2.Kids {
							if m.K == KArr {
								m.Kids = append(m.Kids, k.clone())
							} else if m.keyIndex(m2.Keys[i]) < 0 {
								m.Keys, m.Kids = append(m.Keys, m2.Keys[i]), append(m.Kids, k.clone())
							}
						}
						break
					}
					say("merge with %s", m2)
					if m.K == KObj {
						mergeModel("", m, m2, nil, nil)
					} else {
						mergeArr(m, m2)
					}
					v.MergeWith(w, nil)
				case 5, 6: // read
					if at < 0 || h.m.Kids[at].K != KAbsent {
						continue
					}
					say("read %v %q", h.path, name)
					x, p := h.v, append(append([]string(nil), h.path...), name)
					d, ti := time.Duration(99), time.UnixMilli(5)
					if chance(t, "beyond", 3) { // through the absent one
						p = append(p, pick(t, "below", "0", "x", ""))
						if v.ValueByPath(p...) != nil || v.IntByPath(-7, p...) != -7 || v.StringByPath("d", p...) != "d" {
							fail("a read below an absent child finds something")
						}
						break
					}
					if v.ValueByPath(p...) != nil || x.ValueByName(name) != nil || x.ValueByIndex(at) != nil {
						fail("a lookup of an absent child finds something")
					}
					if k, y := x.Items(at); y != nil || h.m.K == KObj && k != name {
						fail("Items(%d) = %q, %v", at, k, y)
					}
					if v.IntByPath(-7, p...) != -7 || v.StringByPath("d", p...) != "d" || !v.BoolByPath(true, p...) || v.FloatByPath(-8, p...) != -8 || v.DoubleByPath(-9, p...) != -9 ||
						v.DateTimeByPath(-3, p...) != -3 || !v.GoTimeByPath(ti, p...).Equal(ti) || v.DurationByPath(d, p...) != d {
						fail("a read by path of an absent child does not give the default")
					}
					if x.AsInt(name, -7) != -7 || x.AsInt64(name, -7) != -7 || x.AsString(name, "d") != "d" || !x.AsBool(name, true) || x.AsFloat(name, -8) != -8 || x.AsDouble(name, -9) != -9 ||
						x.AsDateTime(name, -3) != -3 || x.AsDuration(d, name) != d || x.IntByName(name, -7) != -7 || x.StringByName(name, "d") != "d" || !x.BoolByName(name, true) ||
						x.FloatByName(name, -8) != -8 || x.DoubleByName(name, -9) != -9 || !x.TimeByName(name, ti).Equal(ti) || x.DurationByName(d, name) != d {
						fail("a read by name of an absent child does not give the default")
					}
					if x.IntByIndex(at, -7) != -7 || x.StringByIndex(at, "d") != "d" || !x.BoolByIndex(at, true) || x.FloatByIndex(at, -8) != -8 || x.DoubleByIndex(at, -9) != -9 {
						fail("a read by index of an absent child does not give the default")
					}
				case 7, 8: // to Go
					if rapid.Bool().Draw(t, "intoAny") {
						var x interface{}
						say("to interface{}")
						v.ToStdValue(&x, false)
						if d := goOf(m, x); d != "" {
							fail("ToStdValue: %s", d)
						}
						break
					}
					tp := absentDests[rapid.IntRange(0, len(absentDests)-1).Draw(t, "dest")]
					say("to %v", tp)
					ic := rapid.Bool().Draw(t, "ignoreCase")
					got, want := reflect.New(tp), reflect.New(tp)
					doing("ToStdValue(%v) of %s", tp, m)
					w := v.Clone(false) // the same with null in place of the absent ones
					for _, wh := range holders(m, w, nil) {
						for j, k := range wh.m.Kids {
							if k.K == KAbsent {
								if wh.m.K == KObj {
									wh.v.SetKey(wh.m.Keys[j], dx.VT_NULL)
								} else {
									wh.v.SetIndex(j, dx.VT_NULL)
								}
							}
						}
					}
					into := func(v *dx.DxValue, p reflect.Value) {
						switch x := p.Elem().Interface().(type) {
						case map[string]string:
							if ic {
								x = map[string]string{"old": "one"}
								p.Elem().Set(reflect.ValueOf(x))
								v.ToStdValue(x, false)
								return
							}
						case []string:
							if ic {
								x = []string{"old", "2", "3", "4", "5", "6", "7", "8"}
								p.Elem().Set(reflect.ValueOf(x))
								v.ToStdValue(x, false)
								return
							}
						}
						v.ToStdValue(p.Interface(), ic)
					}
					into(w, want)
					into(v, got)
					if !reflect.DeepEqual(got.Interface(), want.Interface()) {
						fail("ToStdValue gives %#v, with null in place of the absent ones %#v", got.Elem().Interface(), want.Elem().Interface())
					}
				case 9, 10: // set over an absent (or other) child
					if at < 0 {
						continue
					}
					say("set %v %q", h.path, name)
					var nm *M
					x := h.v
					switch r := drawRnd(t, "setHow"); {
					case h.m.K == KObj:
						switch r.n(5) {
						case 0:
							x.SetKeyInt(name, 7)
							nm = &M{K: KInt, I: 7}
						case 1:
							x.SetKeyString(name, "s")
							nm = &M{K: KString, S: "s"}
						case 2:
							x.SetKeyBool(name, true)
							nm = &M{K: KBool, B: true}
						case 3:
							x.SetKeyvalue(name, []interface{}{1, nil, "x"}, nil)
							nm = markAbsent(observe(x.ValueByName(name), nil))
							if len(nm.Kids) != 3 {
								fail("a slice of three is %s", nm)
							}
						case 4:
							x.SetKeyDouble(name, 1.5)
							nm = &M{K: KDouble, F: 1.5}
						}
					default:
						switch r.n(5) {
						case 0:
							x.SetIndexInt(at, 7)
							nm = &M{K: KInt, I: 7}
						case 1:
							x.SetIndexString(at, "s")
							nm = &M{K: KString, S: "s"}
						case 2:
							x.SetIndexBool(at, true)
							nm = &M{K: KBool, B: true}
						case 3:
							x.SetIndexvalue(at, int64(9), nil)
							nm = &M{K: KInt, I: 9}
						case 4:
							x.SetKeyInt(name, 8)
							nm = &M{K: KInt, I: 8}
						}
					}
					h.m.Kids[at] = nm
				case 11: // remove
					if at < 0 {
						continue
					}
					say("remove %v %q", h.path, name)
					switch {
					case h.m.K == KArr:
						h.v.RemoveIndex(at)
					case rapid.Bool().Draw(t, "extract"):
						if x := h.v.ExtractValue(name); (x == nil) != (h.m.Kids[at].K == KAbsent) {
							fail("ExtractValue gives %v", x)
						}
					default:
						h.v.RemoveKey(name)
					}
					h.m.removeAt(at)
				case 12: // take away another one, or add an absent one
					absent++
					r := drawRnd(t, "punch3")
					if at >= 0 && rapid.Bool().Draw(t, "existing") {
						at = rapid.IntRange(0, len(h.m.Kids)-1).Draw(t, "take")
						h.m.Kids[at] = &M{K: KAbsent}
						say("take away %v %d", h.path, at)
						if h.m.K == KObj {
							punchKey(h.v, h.m.Keys[at], r)
						} else {
							punchElem(h.v, at, r)
						}
						break
					}
					say("add an absent child to %v", h.path)
					if h.m.K == KObj {
						k := "absent" + strconv.Itoa(i)
						if h.m.keyIndex(k) >= 0 {
							continue
						}
						h.m.Keys = append(h.m.Keys, k)
						punchKey(h.v, k, r)
					} else {
						h.v.SetIndexValue(len(h.m.Kids), nil)
					}
					h.m.Kids = append(h.m.Kids, &M{K: KAbsent})
				case 13: // force a path through an absent child
					if at < 0 || h.m.Kids[at].K != KAbsent {
						continue
					}
					say("force %v %q", h.path, name)
					p := append(append([]string(nil), h.path...), name)
					nm := &M{K: KInt, I: 3}
					if rapid.Bool().Draw(t, "through") {
						p = append(p, "sub")
						nm = &M{K: KObj, Keys: []string{"sub"}, Kids: []*M{nm}}
					}
					v.ForcePath(dx.VT_Int, p...).SetInt(3)
					h.m.Kids[at] = nm
				case 14: // free a cached copy, let others take its memory
					say("free a copy")
					w := v.Clone(true)
					dx.FreeValue(w)
					x := dx.NewObject(true)
					for j := 0; j < 5; j++ {
						x.SetKeyInt("k"+strconv.Itoa(j), int64(j))
					}
					if x.Count() != 5 || x.AsInt("k3", 0) != 3 {
						fail("a new cached value holds %s", x.String())
					}
					dx.FreeValue(x)
				}
				check("afterwards", m, v)
			}
			c.ClassIf(absent > 0, "absent children")
			c.NonTrivial(absent > 0 && seen >= 2, fmt.Sprint(log))
			c.Sample(func() string { return fmt.Sprint(log) })
		})
}
