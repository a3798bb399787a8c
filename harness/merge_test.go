package harness

import (
	"fmt"
	"hash/fnv"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C18: MergeWith
// ---------------------------------------------------------------------------

type mergeCall struct {
	path     string
	old, new *M
}

func decide(salt uint32, path string) dx.MergeOp {
	h := fnv.New32a()
	fmt.Fprint(h, salt, path)
	switch h.Sum32() % 4 {
	case 0:
		return dx.MO_Replace
	case 1:
		return dx.MO_Custom // the callback takes care itself; here: keeps the old one
	}
	return dx.MO_Normal
}

func mergeArr(a, b *M) {
	var add []*M
	for _, n := range b.Kids {
		found := false
		for _, o := range a.Kids {
			found = found || sameDoc(n, o)
		}
		if !found {
			add = append(add, n.clone())
		}
	}
	a.Kids = append(a.Kids, add...)
}

func mergeModel(path string, a, b *M, op func(string) dx.MergeOp, calls *[]mergeCall) {
	for i, k := range b.Keys {
		n := b.Kids[i]
		j := a.keyIndex(k)
		if j < 0 {
			a.Keys, a.Kids = append(a.Keys, k), append(a.Kids, n.clone())
			continue
		}
		p := k
		if path != "" {
			p = path + "/" + k
		}
		o := a.Kids[j]
		do := dx.MO_Normal
		if op != nil {
			*calls = append(*calls, mergeCall{p, o.clone(), n.clone()})
			do = op(p)
		}
		switch do {
		case dx.MO_Replace:
			a.Kids[j] = n.clone()
		case dx.MO_Normal:
			switch {
			case o.K == KObj && n.K == KObj:
				mergeModel(p, o, n, op, calls)
			case o.K == KArr && n.K == KArr:
				mergeArr(o, n)
			default:
				a.Kids[j] = &M{K: KArr, Kids: []*M{o, n.clone()}}
			}
		}
	}
}

// related: a document sharing keys and elements with m.
func related(t *rapid.T, m *M, o *treeOpts) *M {
	if !m.isContainer() || chance(t, "unrelatedPart", 6) {
		if chance(t, "sameLeaf", 3) {
			return m.clone()
		}
		return drawNode(t, o, 1, nil)
	}
	n := &M{K: m.K}
	for i, k := range m.Kids {
		if chance(t, "drop", 3) {
			continue
		}
		if m.K == KObj {
			n.Keys = append(n.Keys, m.Keys[i])
			n.Kids = append(n.Kids, related(t, k, o))
		} else if rapid.Bool().Draw(t, "sameElem") {
			n.Kids = append(n.Kids, k.clone())
		} else {
			n.Kids = append(n.Kids, related(t, k, o))
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, "extra"); i > 0; i-- {
		if m.K == KObj {
			k := o.key(t, "extraKey")
			if n.keyIndex(k) >= 0 {
				continue
			}
			n.Keys = append(n.Keys, k)
		}
		n.Kids = append(n.Kids, drawNode(t, o, 1, nil))
	}
	if l := len(n.Kids); l > 1 && rapid.Bool().Draw(t, "shuffle") {
		i := rapid.IntRange(0, l-2).Draw(t, "swap")
		n.Kids[i], n.Kids[i+1] = n.Kids[i+1], n.Kids[i]
		if n.K == KObj {
			n.Keys[i], n.Keys[i+1] = n.Keys[i+1], n.Keys[i]
		}
	}
	return n
}

func TestC18(t *testing.T) {
	run(t, "pairs of documents sharing keys and elements at several levels (objects, arrays, scalars of every type, built or decoded), merged with no callback or with one that decides replace / normal / keep from the path; oracle: the union computed on the models, the exact sequence of callback calls with paths and both values, an unchanged source, and edits of either side afterwards; non-trivial: at least one conflict at level 2 or deeper, or an array union",
		func(t *rapid.T, c *Case) {
			o := &treeOpts{kinds: []Kind{KNull, KBool, KInt, KDouble, KString, KTime, KBin, KExt}, depth: 3, maxFan: 4, mid: true}
			o.str = func(t *rapid.T, l string) string { return pick(t, l, "", "x", "y", "quo\"te\\", "X") }
			o.key = func(t *rapid.T, l string) string {
				return pick(t, l, "a", "b", "c", "d", "A", "quo\"te", "back\\slash", "e/f", "中")
			}
			o.anyInts = func(t *rapid.T, l string) int64 { return int64(rapid.IntRange(0, 3).Draw(t, l)) }
			family := rapid.IntRange(0, 2).Draw(t, "family")
			formats := ""
			if family == 1 {
				o.kinds, formats = jsonKinds, "j"
			} else if family == 2 {
				formats = "m"
			}
			k := pick(t, "root", KObj, KObj, KObj, KArr)
			m1 := drawNode(t, o, 3, &k)
			m2 := related(t, m1, o)
			fixExt(m1)
			fixExt(m2)
			v1, v2 := anySource(t, m1, formats), anySource(t, m2, formats)
			if family == 1 { // what is an int and what a double is up to the reader
				m1, m2 = observe(v1.Clone(false), nil), observe(v2.Clone(false), nil)
			}
			if v1.ReadOnly() {
				return
			}
			salt := rapid.Uint32().Draw(t, "salt")
			rounds := 1
			if chance(t, "mergeAgain", 6) {
				rounds = rapid.IntRange(2, 4).Draw(t, "rounds")
				c.Class("merged several times in a row")
			}
			again := func() { // another source for what came out of the merge before
				m2 = related(t, m1, o)
				fixExt(m2)
				from := formats
				if family == 1 && !jsonable(m2) {
					from = ""
				}
				v2 = anySource(t, m2, from)
				if family == 1 {
					m2 = observe(v2.Clone(false), nil)
				}
			}
		merging:
			var calls, got []mergeCall
			var op func(string) dx.MergeOp
			var cb dx.MergeFunc
			if rapid.IntRange(0, 2).Draw(t, "callback") > 0 {
				op = func(p string) dx.MergeOp { return decide(salt, p) }
				cb = func(p string, a, b *dx.DxValue) dx.MergeOp {
					got = append(got, mergeCall{string(append([]byte(nil), p...)), observe(a, nil), observe(b, nil)})
					return op(p)
				}
				c.Class("with callback")
			}
			was1, was2 := m1.String(), m2.String()
			union := false
			if m1.K == m2.K && m1.K == KObj {
				mergeModel("", m1, m2, op, &calls)
			} else if m1.K == m2.K && m1.K == KArr {
				union = true
				mergeArr(m1, m2)
			}
			doing("merge of %s with %s", was1, was2)
			v1.MergeWith(v2, cb)
			info := func() string {
				return fmt.Sprintf("merging\n  %s\nwith\n  %s\n(callback %v, salt %d)", was1, was2, cb != nil, salt)
			}
			for i := 0; i < len(calls) || i < len(got); i++ {
				if i >= len(got) {
					t.Fatalf("callback not called for %q\n%s", calls[i].path, info())
				}
				if i >= len(calls) {
					t.Fatalf("callback called for %q, which is not in conflict\n%s", got[i].path, info())
				}
				if got[i].path != calls[i].path {
					t.Fatalf("callback %d: path %q, want %q\n%s", i, got[i].path, calls[i].path, info())
				}
				if d := diff(calls[i].old, got[i].old, cmpMode{}); d != "" {
					t.Fatalf("callback for %q: old value %s\n%s", got[i].path, d, info())
				}
				if d := diff(calls[i].new, got[i].new, cmpMode{}); d != "" {
					t.Fatalf("callback for %q: new value %s\n%s", got[i].path, d, info())
				}
			}
			if d := diff(m1, observe(v1, drawRnd(t, "look")), cmpMode{}); d != "" {
				t.Fatalf("merge result: %s\n%s", d, info())
			}
			if d := diff(m2, observe(v2, nil), cmpMode{}); d != "" {
				t.Fatalf("the source changed: %s\n%s", d, info())
			}
			// later edits of one side stay there
			e1, e2 := &editor{noRoot: true}, &editor{noRoot: true}
			for i := rapid.IntRange(0, 4).Draw(t, "edits"); i > 0; i-- {
				if rapid.Bool().Draw(t, "side") {
					e1.step(t, v1, m1)
				} else if m2.isContainer() {
					e2.step(t, v2, m2)
				}
				if d := diff(m1, observe(v1, nil), cmpMode{}); d != "" {
					t.Fatalf("result and source share parts: %s\n%s\n%s\n%s", d, info(), e1, e2)
				}
				if d := diff(m2, observe(v2, nil), cmpMode{}); d != "" {
					t.Fatalf("source and result share parts: %s\n%s\n%s\n%s", d, info(), e1, e2)
				}
			}
			deep := union
			for _, cl := range calls {
				deep = deep || cl.old.depth() > 1
			}
			if rounds--; rounds > 0 && m1.isContainer() {
				again()
				goto merging
			}
			c.NonTrivial(deep || cb == nil, was1, was2, fmt.Sprint(salt, cb != nil))
			c.Sample(info)
		})
}

// ---------------------------------------------------------------------------
// C19: recycled memory
// ---------------------------------------------------------------------------

var bulkKinds = []Kind{KString, KString, KBin, KExt, KInt, KDouble, KFloat, KObj, KArr}

func TestC19(t *testing.T) {
	run(t, "histories of 5..60 operations over up to 6 live documents: create cached/uncached of any type, fill, edit, fill with 1 to 130 members out of its own cache, decode from JSON/MsgPack/BSON/YAML, load over, clear, reset, clone, merge, free (also twice in a row), decodes that fail half way; after every operation every live document is compared with its own model, and a new value must be empty; non-trivial: at least two frees or clears of cached documents followed by further allocation",
		func(t *rapid.T, c *Case) {
			type live struct {
				v *dx.DxValue
				m *M
				e *editor
			}
			var docs []*live
			var log []string
			recycled, after := 0, 0
			n, most := rapid.IntRange(5, 60).Draw(t, "ops"), 6
			if rare(t, "longHistory", 7) {
				n, most = rapid.IntRange(100, 400).Draw(t, "manyOps"), pick(t, "most", 6, 12, 40)
				c.Class("history of hundreds of operations")
			}
			add := func(v *dx.DxValue, m *M) {
				if v == nil || v.ReadOnly() {
					return
				}
				docs = append(docs, &live{v, m, &editor{}})
				if recycled > 0 {
					after++
				}
			}
			for i := 0; i < n; i++ {
				op := rapid.IntRange(0, 14).Draw(t, "op")
				if len(docs) == 0 && op != 14 || len(docs) >= most && (op < 3 || op == 12 || op == 13) {
					if len(docs) == 0 {
						op = []int{0, 1, 2, 12}[op%4]
					} else {
						op = 11
					}
				}
				var d *live
				if op >= 3 && op < 12 {
					d = docs[rapid.IntRange(0, len(docs)-1).Draw(t, "doc")]
				}
				switch op {
				case 14: // a decode that fails half way gives its memory back once, or not at all
					f := formats[rapid.IntRange(0, len(formats)-1).Draw(t, "badFormat")]
					b := f.valid(t)
					if rapid.Bool().Draw(t, "truncate") && len(b) > 0 {
						b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
					} else {
						b = mutate(t, b, f.bad)
					}
					share := rapid.Bool().Draw(t, "share")
					v, err := f.fresh(b, true, share)
					log = append(log, fmt.Sprintf("decode mutilated %s: error %v", f.name, err != nil))
					if err != nil {
						recycled++
					} else if v != nil && !v.ReadOnly() && len(docs) < most {
						add(v, observe(v, nil).clone())
					}
				case 0, 1: // a fresh value is empty
					m := dflt(drawNode(t, &treeOpts{kinds: allKinds}, 1, nil))
					if m.K == KTime {
						m.K = KInt
					}
					var v *dx.DxValue
					if op == 0 {
						v = dx.NewCacheValue(vt(m))
					} else {
						v = dx.NewValue(vt(m))
					}
					log = append(log, fmt.Sprintf("new %v (cached %v)", m.K, op == 0))
					if df := diff(m, observe(v, nil), cmpMode{}); df != "" || v.ExtType != 0 || v.BinLen() != 0 || v.Count() != 0 {
						t.Fatalf("a new value is not empty: %s\n  %v", df, log)
					}
					add(v, m)
				case 2: // decode
					m, v := anyDoc(t)
					log = append(log, fmt.Sprintf("decode/build %s", clip(m.String(), 200)))
					add(v, m)
				case 12, 13: // many members out of one cache, each of them empty when handed out
					m := &M{K: pick(t, "bulkRoot", KObj, KArr)}
					v := dx.NewCacheValue(vt(m))
					ks := []Kind{pick(t, "bulkKind", bulkKinds...), pick(t, "bulkKind", bulkKinds...)}
					untouched := rapid.Bool().Draw(t, "untouched")
					sample := []*M{drawLeaf(t, KInt, &treeOpts{}), drawLeaf(t, KDouble, &treeOpts{}), {K: KString, S: "recycled text"}, {K: KBin, Bin: []byte("recycled")}, {K: KExt, Ext: 9, Bin: []byte("recycled")}, {K: KFloat, F: 1.5}}
					log = append(log, fmt.Sprintf("bulk %v of %v", m.K, ks))
					for k := pick(t, "bulk", 1, 3, 7, 8, 9, 12, 20, 40, 130); k > 0; k-- {
						kid := &M{K: ks[k&1]}
						var nv *dx.DxValue
						if m.K == KObj {
							key := fmt.Sprint("b", k)
							m.Keys = append(m.Keys, key)
							nv = v.SetKeyCached(key, vt(kid), v.ValueCache())
						} else {
							nv = v.SetIndexCached(len(m.Kids), vt(kid), v.ValueCache())
						}
						if df := diff(kid, observe(nv, nil), cmpMode{}); df != "" || nv.ExtType != 0 || nv.BinLen() != 0 || nv.Count() != 0 {
							t.Fatalf("a value out of a cache is not empty: %s\n  %v", df, log)
						}
						if !untouched || k%3 == 0 {
							for _, s := range sample {
								if s.K == kid.K {
									kid = s.clone()
								}
							}
							switch kid.K {
							case KObj:
								kid.Keys, kid.Kids = []string{"x"}, []*M{{K: KString}}
								nv.SetKeyCached("x", dx.VT_String, v.ValueCache())
							case KArr:
								kid.Kids = []*M{{K: KString}}
								nv.SetIndexCached(0, dx.VT_String, v.ValueCache())
							default:
								fill(nv, kid, nil)
							}
						}
						m.Kids = append(m.Kids, kid)
					}
					add(v, m)
				case 3, 4, 5, 6:
					d.e.log = nil
					for k := rapid.IntRange(1, 3).Draw(t, "edits"); k > 0; k-- {
						d.e.step(t, d.v, d.m)
					}
					log = append(log, "edit: "+d.e.String())
				case 7: // load over
					f := formats[rapid.IntRange(0, len(formats)-1).Draw(t, "format")]
					b := f.valid(t)
					if len(b) == 0 {
						continue
					}
					share := rapid.Bool().Draw(t, "share")
					fresh, err := f.fresh(append([]byte(nil), b...), false, false)
					if err != nil {
						t.Fatalf("valid %s rejected: %v", f.name, err)
					}
					if err := f.load(d.v, b, share); err != nil {
						t.Fatalf("valid %s rejected by load: %v", f.name, err)
					}
					d.m = observe(fresh, nil)
					log = append(log, "load "+f.name)
				case 8:
					if d.v.ValueCache() != nil {
						recycled++
					}
					if d.m.K == KTime {
						continue
					}
					d.v.Clear()
					*d.m = *dflt(d.m)
					log = append(log, "clear")
				case 9:
					cached := rapid.Bool().Draw(t, "cached")
					if len(docs) < most {
						log = append(log, "clone")
						add(d.v.Clone(cached), d.m.clone())
					}
				case 10: // take over as a copy
					s := docs[rapid.IntRange(0, len(docs)-1).Draw(t, "src")]
					if s != d {
						d.v.CopyFrom(s.v, nil)
						d.m = s.m.clone()
						log = append(log, "copy")
					}
				case 11:
					if d.v.ValueCache() != nil {
						recycled++
					}
					dx.FreeValue(d.v)
					if rapid.IntRange(0, 3).Draw(t, "freeTwice") == 0 {
						dx.FreeValue(d.v) // there is nothing left to give back
					}
					for j := range docs {
						if docs[j] == d {
							docs = append(docs[:j], docs[j+1:]...)
							break
						}
					}
					log = append(log, "free")
				}
				doing("%v", log)
				for j, d := range docs {
					if df := diff(d.m, observe(d.v, nil), cmpMode{}); df != "" {
						t.Fatalf("live document %d changed: %s\n  %v", j, df, log)
					}
				}
			}
			c.ClassIf(recycled >= 2, "recycled twice or more")
			c.NonTrivial(recycled >= 2 && after > 0, fmt.Sprint(log))
			c.Sample(func() string { return fmt.Sprint(log) })
		})
}
