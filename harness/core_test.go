package harness

import (
	"fmt"
	"math"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

func TestC14(t *testing.T) {
	run(t, "edit histories of up to 30 operations (typed setters by key and index, SetKey/SetIndex/SetKeyValue/SetIndexValue, insert, append, remove, extract and re-attach, force-path, clear, reset, in-place type changes, AddFrom) on random nodes of a cached or uncached document, compared after every operation with an ordered-map/list model through random read routes; non-trivial: at least 5 operations and a document nested >=2 levels at some point",
		func(t *rapid.T, c *Case) {
			e := &editor{}
			m := e.tree(t)
			var v *dx.DxValue
			if rapid.IntRange(0, 3).Draw(t, "decoded") == 3 && jsonable(m) {
				b, cached, share := renderJSON(m, drawRnd(t, "spelling")), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
				twin, _ := dx.NewValueFromJson(append([]byte(nil), b...), cached, share)
				got := observe(twin, nil)
				if d := diff(m, got, cmpMode{numeric: true}); d != "" {
					t.Fatalf("decoding the starting document: %s", d)
				}
				m = got                                      // JSON does not say whether 1 is an int or a double
				v, _ = dx.NewValueFromJson(b, cached, share) // not read yet: keys and strings may still be in escaped form
				c.Class("starts from decoded JSON")
			} else {
				v = build(m, drawRnd(t, "build"))
			}
			if v == nil || v.ReadOnly() {
				v, m = dx.NewObject(true), &M{K: KObj}
			}
			if chance(t, "bigArray", 40) { // indexes beyond a byte
				big := &M{K: KArr}
				for i, n := 0, rapid.IntRange(250, 350).Draw(t, "bigLen"); i < n; i++ {
					big.Kids = append(big.Kids, &M{K: KInt, I: int64(i)})
				}
				v, m = build(big, drawRnd(t, "build")), big
				c.Class("starts from an array of hundreds")
			}
			e.logf("start: %s", m)
			n := rapid.IntRange(1, 30).Draw(t, "ops")
			if rare(t, "longHistory", 8) {
				n = rapid.IntRange(100, 400).Draw(t, "manyOps")
				c.Class("history of hundreds of operations")
			}
			deep := false
			num := cmpMode{numeric: true}
			for i := 0; i < n; i++ {
				e.step(t, v, m)
				if i == n-1 || rapid.IntRange(0, 2).Draw(t, "lookNow") > 0 {
					if d := diff(m, observe(v, drawRnd(t, "look")), num); d != "" {
						t.Fatalf("document differs from the model: %s\n  %s", d, e)
					}
				}
				if rapid.Bool().Draw(t, "probeNow") {
					e.probe(t, v, m)
				}
				deep = deep || m.depth() >= 3
			}
			c.ClassIf(v.ValueCache() != nil, "cached")
			c.NonTrivial(n >= 5 && deep, e.String())
			c.Sample(e.String)
		})
}

// jsonable: documents JSON represents without loss of type (numbers aside).
func jsonable(m *M) bool {
	ok := true
	m.walk(func(n *M) {
		switch n.K {
		case KNull, KBool, KInt, KDouble, KString, KObj, KArr:
			if math.IsNaN(n.F) || math.IsInf(n.F, 0) {
				ok = false
			}
		default:
			ok = false
		}
	})
	return ok
}

var allKinds = []Kind{KNull, KBool, KInt, KInt, KFloat, KDouble, KString, KString, KTime, KBin, KExt, KNaN, KInf}

func TestC16(t *testing.T) {
	run(t, "documents of every type (API-built or decoded from JSON/MsgPack/BSON), cloned (cached or not) or copied over a used value; then random edit histories on either side, flipping of binary content in place, freeing of cached originals and reuse of the cache; oracle: the model of each side; non-trivial: nested >=2 levels or holding a binary/extension/date-time, with at least one edit",
		func(t *rapid.T, c *Case) {
			m, v := anyDoc(t)
			e1, e2 := &editor{noRoot: true}, &editor{noRoot: true}
			var w *dx.DxValue
			how := rapid.IntRange(0, 3).Draw(t, "how")
			doing("clone of %s", m)
			switch how {
			case 0:
				w = v.Clone(false)
			case 1:
				w = v.Clone(true)
			case 2:
				w = usedValue(t)
				w.CopyFrom(v, nil)
			case 3:
				w = usedValue(t)
				w.CopyFrom(v, w.ValueCache())
			}
			m2 := m.clone()
			if d := diff(m, observe(w, drawRnd(t, "look")), cmpMode{numeric: true}); d != "" {
				t.Fatalf("the copy differs: %s\nof %s", d, m)
			}
			if !v.Equal(w) || !w.Equal(v) {
				t.Fatalf("the copy is not Equal to %s", m)
			}
			if d := stampDiff2(v, w); d != "" {
				t.Fatalf("the copy differs: %s\nof %s", d, m)
			}
			// flip binary content in place
			if rapid.Bool().Draw(t, "flip") {
				if rapid.Bool().Draw(t, "flipOriginal") {
					flipBins(v, m)
				} else {
					flipBins(w, m2)
				}
			}
			edits := 0
			freed := false
			for i := rapid.IntRange(0, 12).Draw(t, "edits"); i > 0; i-- {
				if m.isContainer() && rapid.Bool().Draw(t, "side") && !freed {
					e1.step(t, v, m)
					edits++
				} else if m2.isContainer() {
					e2.step(t, w, m2)
					edits++
				}
				if !freed {
					if d := diff(m, observe(v, nil), cmpMode{numeric: true}); d != "" {
						t.Fatalf("original changed: %s\nedits of original:\n  %s\nedits of copy:\n  %s", d, e1, e2)
					}
				}
				if d := diff(m2, observe(w, nil), cmpMode{numeric: true}); d != "" {
					t.Fatalf("copy changed: %s\nedits of original:\n  %s\nedits of copy:\n  %s", d, e1, e2)
				}
				if !freed && v.ValueCache() != nil && chance(t, "free", 4) {
					dx.FreeValue(v)
					freed = true
					most := 12
					if rapid.Bool().Draw(t, "manyRecycled") { // more values than the document had
						most = 12 + 2*min(m.nodes()+m2.nodes(), 400)
					}
					for k := 0; k < 3; k++ { // reuse the recycled cache
						x := dx.NewCacheValue(dx.VT_Object)
						for j := 0; j < most; j++ {
							x.SetKeyString(fmt.Sprint("k", j), "recycled")
						}
						x.SetKey("bin", dx.VT_Binary).SetBinary([]byte("recycled recycled"), true)
						dx.FreeValue(x)
					}
					c.Class("original freed")
				}
			}
			if d := diff(m2, observe(w, drawRnd(t, "look2")), cmpMode{numeric: true}); d != "" {
				t.Fatalf("copy changed: %s\nedits of original:\n  %s\nedits of copy:\n  %s", d, e1, e2)
			}
			c.Class([]string{"Clone(false)", "Clone(true)", "CopyFrom", "CopyFrom with cache"}[how])
			kindClasses(c, m)
			c.NonTrivial((interestingBin(m) || m.depth() >= 2) && edits > 0, m.String(), e1.String(), e2.String())
			c.Sample(func() string { return m.String() + "\n  " + e1.String() + "\n  " + e2.String() })
		})
}

func stampDiff2(a, b *dx.DxValue) string {
	if a.ExtType != b.ExtType && (a.Type() == dx.VT_Int || a.Type() == dx.VT_Binary || a.Type() == dx.VT_ExBinary) {
		return fmt.Sprintf("extension type of a %v: %#x became %#x", a.Type(), a.ExtType, b.ExtType)
	}
	for i := 0; i < a.Count(); i++ {
		if d := stampDiff2(a.ValueByIndex(i), b.ValueByIndex(i)); d != "" {
			return d
		}
	}
	return ""
}

func flipBins(v *dx.DxValue, m *M) {
	switch m.K {
	case KBin, KExt:
		for i, b := range v.Binary() {
			v.Binary()[i] = b ^ 0x5a
			m.Bin[i] ^= 0x5a
		}
	case KObj, KArr:
		for i, k := range m.Kids {
			flipBins(v.ValueByIndex(i), k)
		}
	}
}

// anyDoc: a document of arbitrary types from an arbitrary source.
func anyDoc(t *rapid.T) (*M, *dx.DxValue) {
	cached := rapid.Bool().Draw(t, "docCached")
	var m *M
	var b []byte
	var dec func([]byte, bool, bool) (*dx.DxValue, error)
	switch rapid.IntRange(0, 4).Draw(t, "docFrom") {
	case 0, 1:
		m = drawTree(t, &treeOpts{kinds: allKinds, depth: 3, maxFan: 4, mid: true})
		return m, build(m, drawRnd(t, "docRoute"))
	case 2:
		m = drawTree(t, &treeOpts{kinds: jsonKinds, depth: 3, maxFan: 4, mid: true})
		b, dec = renderJSON(m, drawRnd(t, "docForms")), dx.NewValueFromJson
	case 3:
		m = drawTree(t, &treeOpts{kinds: mpKinds, depth: 3, maxFan: 4, mid: true})
		fixExt(m)
		b, dec = mpEncode(nil, m, drawRnd(t, "docForms")), dx.NewValueFromMsgPack
	case 4:
		m = drawTree(t, &treeOpts{kinds: bsonKinds, depth: 3, maxFan: 4, mid: true, root: []Kind{KObj}, key: bsonKey})
		m.walk(func(n *M) {
			if n.K == KBin && len(n.Bin) == 12 {
				n.Ext = 7
			}
		})
		b, dec = bsonEncode(nil, m, drawRnd(t, "docForms")), dx.NewValueFromBson
	}
	v, err := dec(append([]byte(nil), b...), cached, false)
	if err != nil {
		t.Fatalf("decoding the source document failed: %v\n%s", err, m)
	}
	twin, _ := dec(b, cached, false) // v itself stays unread
	got := observe(twin, nil)
	if d := diff(m, got, cmpMode{numeric: true}); d != "" {
		t.Fatalf("the source document came out differently: %s", d)
	}
	return got, v // JSON does not say whether 1 is an int or a double
}

func fixExt(m *M) {
	m.walk(func(n *M) {
		if n.K == KExt && n.Ext == 0xff {
			n.Ext = 0xfe
		}
	})
}
