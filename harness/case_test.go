package harness

import (
	"strings"
	"testing"
	"unicode"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

func caseVariant(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 5).Draw(t, "variant") {
	case 4, 5: // any of the letters that Unicode folds together: k and the Kelvin sign, s and the long s, three sigmas
		return strings.Map(func(r rune) rune {
			for n := rapid.IntRange(0, 3).Draw(t, "fold"); n > 0; n-- {
				r = unicode.SimpleFold(r)
			}
			return r
		}, s)
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.Map(func(r rune) rune {
			if rapid.Bool().Draw(t, "up") {
				return []rune(strings.ToUpper(string(r)))[0]
			}
			return r
		}, s)
	}
	return s
}

func TestC28(t *testing.T) {
	run(t, "documents built or decoded from JSON/MsgPack/YAML-like key sets in which keys may differ only by case (escaped spellings included), edited by histories of up to 15 random operations whose keys are case variants of existing ones, with the switch on or off; oracle: the ordered-map model with folding or exact comparison, compared after every operation through all read routes, typed lookups and both encodings; non-trivial: some key has a case variant in the document or in an operation",
		func(t *rapid.T, c *Case) {
			on := rapid.IntRange(0, 3).Draw(t, "switch") > 0
			old := dx.IgnoreCase
			dx.IgnoreCase = on
			defer func() { dx.IgnoreCase = old }()
			e := &editor{fold: on}
			var m *M
			var v *dx.DxValue
			var err error
			variants := false
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			how := rapid.IntRange(0, 2).Draw(t, "source")
			lookup := func() {
				nv, nm, path := pickNode(t, v, m)
				if nm.K != KObj {
					return
				}
				key := e.freshKey(t)
				if len(nm.Keys) > 0 {
					k := nm.Keys[rapid.IntRange(0, len(nm.Keys)-1).Draw(t, "lookKey")]
					key = caseVariant(t, k)
					variants = variants || k != key
				}
				var want *M
				if i := e.find(nm, key); i >= 0 {
					want = nm.Kids[i]
				}
				for r, got := range []*dx.DxValue{nv.ValueByName(key), nv.Find(key), nv.ValueByPath(key)} {
					if d := diff(want, observeByIndex(got), cmpMode{numeric: true}); d != "" {
						t.Fatalf("lookup (route %d) of %q in %s: %s\n  %s", r, key, path, d, e)
					}
				}
				s := nv.AsString(key, "?missing")
				if (want == nil) != (s == "?missing") && !(want != nil && want.K == KString && want.S == "?missing") {
					t.Fatalf("AsString of %q in %s gives %q, want %s\n  %s", key, path, s, want, e)
				}
			}
			if how == 0 {
				m = e.tree(t)
				v = build(m, drawRnd(t, "route"))
				if v.ReadOnly() {
					v, m = dx.NewObject(true), &M{K: KObj}
				}
			} else {
				ks := jsonKinds
				if how == 2 {
					ks = mpKinds
				}
				m = drawTree(t, &treeOpts{kinds: ks, depth: 2, maxFan: 4, root: []Kind{KObj}, key: func(t *rapid.T, l string) string {
					return pick(t, l, "a", "A", "b", "name", "Name", "NAME", "ab\"C", "AB\"c", "é", "É", "ключ", "Ключ", "x\\Y", "X\\y", "0", "k\n", "K\n", "k\u212a", "σς", "ſs")
				}})
				fixExt(m)
				if on && how == 2 { // the MsgPack reader sets its keys one by one: later variants overwrite
					foldDistinct(m)
				}
				if how == 1 {
					v, err = dx.NewValueFromJson(renderJSON(m, drawRnd(t, "spelling")), cached, share)
				} else {
					v, err = dx.NewValueFromMsgPack(mpEncode(nil, m, drawRnd(t, "spelling")), cached, share)
				}
				if err != nil {
					t.Fatalf("IgnoreCase=%v: valid document rejected: %v", on, err)
				}
				if rapid.Bool().Draw(t, "lookFirst") { // while escaped keys are still escaped
					e.logf("IgnoreCase=%v, start: %s", on, m)
					lookup()
				}
				// by position: looking up by key addresses the first of several variants
				got := observeByIndex(v)
				if d := diff(m, got, cmpMode{numeric: true}); d != "" {
					t.Fatalf("IgnoreCase=%v: decoding changed the document: %s", on, d)
				}
				m = got
				m.walk(func(n *M) {
					for i := range n.Keys {
						for j := 0; j < i; j++ {
							variants = variants || strings.EqualFold(n.Keys[i], n.Keys[j])
						}
					}
				})
			}
			c.ClassIf(variants, "keys differing only by case")
			e.logf("IgnoreCase=%v, start: %s", on, m)
			check := func() {
				if d := diff(m, observeByIndex(v), cmpMode{numeric: true}); d != "" {
					t.Fatalf("document differs from the model: %s\n  %s", d, e)
				}
			}
			lookup()
			check()
			n := rapid.IntRange(0, 15).Draw(t, "ops")
			for i := 0; i < n; i++ {
				e.step(t, v, m)
				check()
				lookup()
			}
			// the switch governs which member a name addresses; names are still spelled as they are
			cp := dx.NewObject(cached)
			dup := v.Clone(share)
			cp.CopyFrom(v, nil)
			for r, got := range []*dx.DxValue{dup, cp} {
				if d := diff(m, observeByIndex(got), cmpMode{numeric: true}); d != "" {
					t.Fatalf("copy (route %d) differs: %s\n  %s", r, d, e)
				}
				if !hasKind(m, KNaN) && (!got.Equal(v) || !v.Equal(got)) {
					t.Fatalf("copy (route %d) is not Equal to its source\n  %s", r, e)
				}
			}
			m2 := m.clone()
			respelled, distinct := false, true
			m2.walk(func(n *M) {
				for i, k := range n.Keys {
					if rapid.Bool().Draw(t, "respell") {
						n.Keys[i] = caseVariant(t, k)
						respelled = respelled || n.Keys[i] != k
					}
				}
				for i := range n.Keys {
					distinct = distinct && n.keyIndex(n.Keys[i]) == i
				}
			})
			if distinct && !hasKind(m, KNaN) {
				dx.IgnoreCase = false
				v2 := build(m2, drawRnd(t, "route"))
				dx.IgnoreCase = on
				if v.Equal(v2) == respelled || v2.Equal(v) == respelled {
					t.Fatalf("Equal gives %v with keys respelled: %v\n%s\n%s\n  %s", v.Equal(v2), respelled, m, m2, e)
				}
				c.ClassIf(respelled, "Equal of documents whose keys differ by case")
			}
			if jsonable(m) {
				got, err := stdJSON(v.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil))
				if err != nil {
					t.Fatalf("JSON output invalid: %v\n  %s", err, e)
				}
				if d := diff(m, got, cmpMode{numeric: true}); d != "" {
					t.Fatalf("JSON output differs: %s\n  %s", d, e)
				}
			}
			if !hasKind(m, KNaN, KInf) && !hasOddTime(m) {
				got, rest, _, err := mpDecode(v.ToMsgPack(nil))
				if err != nil || len(rest) > 0 {
					t.Fatalf("MsgPack output invalid: %v\n  %s", err, e)
				}
				if d := diff(m, got, cmpMode{numeric: true, textBin: true}); d != "" {
					t.Fatalf("MsgPack output differs: %s\n  %s", d, e)
				}
			}
			c.ClassIf(on, "switch on")
			c.ClassIf(!on, "switch off")
			c.NonTrivial(variants || n > 3, e.String())
			c.Sample(e.String)
		})
}

// observeByIndex reads by position only, never by key.
func observeByIndex(v *dx.DxValue) *M {
	if v == nil {
		return nil
	}
	if v.Type() != dx.VT_Object && v.Type() != dx.VT_Array {
		return observe(v, nil)
	}
	m := &M{K: KArr}
	if v.Type() == dx.VT_Object {
		m.K = KObj
	}
	for i := 0; i < v.Count(); i++ {
		k, c := v.Items(i)
		if m.K == KObj {
			m.Keys = append(m.Keys, strings.Clone(k))
		}
		m.Kids = append(m.Kids, observeByIndex(c))
	}
	return m
}
