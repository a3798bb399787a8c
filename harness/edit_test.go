package harness

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Random edits applied in lockstep to a library value and to its model.
// ---------------------------------------------------------------------------

type editor struct {
	fold   bool // keys compare ignoring case
	log    []string
	kinds  []Kind
	depth  int
	noRoot bool // leave the root a container (no Reset/Clear/type changes of the root itself)
}

var editKinds = []Kind{KNull, KBool, KInt, KFloat, KDouble, KString, KString, KTime, KBin, KExt}

func (e *editor) logf(f string, a ...interface{}) {
	e.log = append(e.log, clip(fmt.Sprintf(f, a...), 300))
}

func (e *editor) String() string {
	l := e.log
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	return strings.Join(l, "\n  ")
}

func (e *editor) find(m *M, key string) int {
	for i, k := range m.Keys {
		if k == key || e.fold && strings.EqualFold(k, key) {
			return i
		}
	}
	return -1
}

func (e *editor) look(v *dx.DxValue, r *rnd) *M {
	if e.fold { // by position: keys may differ only by case
		return observeByIndex(v)
	}
	return observe(v, r)
}

func dflt(want *M) *M { return &M{K: want.K, B: want.B} }

func sameType(a, b *M) bool { return a.K == b.K && (a.K != KBool || a.B == b.B) }

// arrIndex: how a key addresses an array. Only unambiguous spellings are generated.
func arrIndex(key string) (int, bool) {
	i, err := strconv.Atoi(key)
	return i, err == nil && i >= 0 && !strings.HasPrefix(key, "+")
}

func (m *M) removeAt(i int) {
	m.Kids = append(m.Kids[:i:i], m.Kids[i+1:]...)
	if m.K == KObj {
		m.Keys = append(m.Keys[:i:i], m.Keys[i+1:]...)
	}
}

// mSetKey: the node for key exists afterwards and has want's type; content is kept when it already had it.
func (e *editor) mSetKey(m *M, key string, want *M) *M {
	if m.K == KArr {
		if i, ok := arrIndex(key); ok {
			return e.mSetIndex(m, i, want)
		}
	}
	if m.K != KObj {
		*m = M{K: KObj}
	}
	if i := e.find(m, key); i >= 0 {
		if !sameType(m.Kids[i], want) {
			m.Kids[i] = dflt(want)
		}
		return m.Kids[i]
	}
	n := dflt(want)
	m.Keys = append(m.Keys, key)
	m.Kids = append(m.Kids, n)
	return n
}

func (e *editor) mSetIndex(m *M, i int, want *M) *M {
	if m.K != KArr {
		*m = M{K: KArr}
	}
	if i >= 0 && i < len(m.Kids) {
		if !sameType(m.Kids[i], want) {
			m.Kids[i] = dflt(want)
		}
		return m.Kids[i]
	}
	n := dflt(want)
	m.Kids = append(m.Kids, n)
	return n
}

func (e *editor) mPutKey(m *M, key string, n *M) {
	if m.K == KArr {
		if i, ok := arrIndex(key); ok {
			e.mPutIndex(m, i, n)
			return
		}
	}
	if m.K != KObj {
		*m = M{K: KObj}
	}
	if i := e.find(m, key); i >= 0 {
		m.Kids[i] = n
		return
	}
	m.Keys = append(m.Keys, key)
	m.Kids = append(m.Kids, n)
}

func (e *editor) mPutIndex(m *M, i int, n *M) {
	if m.K != KArr {
		*m = M{K: KArr}
	}
	if i >= 0 && i < len(m.Kids) {
		m.Kids[i] = n
		return
	}
	m.Kids = append(m.Kids, n)
}

func (e *editor) mForce(m *M, want *M, path []string) *M {
	cur := m
	for i := 0; i < len(path)-1; i++ {
		key := path[i]
		var next *M
		switch cur.K {
		case KObj:
			if j := e.find(cur, key); j >= 0 {
				next = cur.Kids[j]
			}
		case KArr:
			if j, ok := arrIndex(key); ok && j < len(cur.Kids) {
				next = cur.Kids[j]
			}
		}
		if next == nil || !next.isContainer() {
			next = e.mSetKey(cur, key, &M{K: KObj})
		}
		cur = next
	}
	if len(path) == 0 {
		return cur
	}
	return e.mSetKey(cur, path[len(path)-1], want)
}

func (e *editor) key(t *rapid.T, m *M) string {
	if len(m.Keys) > 0 && rapid.Bool().Draw(t, "existing") {
		k := m.Keys[rapid.IntRange(0, len(m.Keys)-1).Draw(t, "which")]
		if e.fold {
			switch rapid.IntRange(0, 2).Draw(t, "case") {
			case 1:
				k = strings.ToUpper(k)
			case 2:
				k = strings.ToLower(k)
			}
		}
		return k
	}
	if m.K == KArr && rapid.Bool().Draw(t, "numeric") {
		if chance(t, "farKey", 16) {
			return strconv.Itoa(len(m.Kids) + pick(t, "keyGap", 2, 5, 9, 33, 300, 1<<20))
		}
		return pick(t, "zeros", "", "", "", "0", "00", "0000000000000000000000000") + strconv.Itoa(rapid.IntRange(0, len(m.Kids)+1).Draw(t, "idxKey"))
	}
	return e.freshKey(t)
}

func (e *editor) freshKey(t *rapid.T) string {
	if chance(t, "longKey", 12) { // alike for a long way
		n := pick(t, "prefix", 7, 8, 15, 16, 31, 32, 63, 64, 70, 127, 128, 255, 256, 300)
		k := strings.Repeat("p", n)
		return pick(t, "longHow", k+"1", k+"2", k, k+"pp", "1"+k, "2"+k, k[1:]+"1")
	}
	k := pick(t, "key", "a", "b", "c", "d", "Name", "name", "x y", "quo\"te", "back\\slash", "中文", "", "a/b", "\\u0041", "tab\t", "é", "É", "AbC", "aBc", "1x", "key7", "key8")
	return k
}

func (e *editor) index(t *rapid.T, m *M) int {
	if chance(t, "idxFar", 16) { // far past the end
		return len(m.Kids) + pick(t, "idxGap", 2, 5, 9, 33, 300, 1<<20, 1<<40)
	}
	n := len(m.Kids)
	if chance(t, "idxNeg", 16) {
		return pick(t, "negative", -n, -n-1, 1-n, -2, -3, math.MinInt32, math.MinInt64, math.MaxInt32, 1<<32)
	}
	if n > 6 && rapid.Bool().Draw(t, "idxEdge") {
		return pick(t, "idx", 0, 1, n-1, n, n-2, -1, n+1)
	}
	return rapid.IntRange(-1, len(m.Kids)+1).Draw(t, "idx")
}

func (e *editor) tree(t *rapid.T) *M {
	ks := e.kinds
	if ks == nil {
		ks = editKinds
	}
	m := drawTree(t, &treeOpts{kinds: ks, depth: rapid.IntRange(0, 2).Draw(t, "newDepth"), maxFan: 3, mid: true, key: func(t *rapid.T, l string) string { return e.freshKey(t) }, str: func(t *rapid.T, l string) string {
		return pick(t, l, "", "x", "hello", "quo\"te\\", "中", "12", "-7.5", "true", "\n")
	}})
	if e.fold {
		foldDistinct(m)
	}
	return m
}

// foldDistinct makes all keys of an object distinct ignoring case.
func foldDistinct(m *M) {
	m.walk(func(n *M) {
		for i := range n.Keys {
			for j := 0; j < i; j++ {
				if strings.EqualFold(n.Keys[i], n.Keys[j]) {
					n.Keys[i] = fmt.Sprintf("%s#%d", n.Keys[i], i)
				}
			}
		}
	})
}

func (e *editor) leaf(t *rapid.T) *M {
	ks := e.kinds
	if ks == nil {
		ks = editKinds
	}
	return drawLeaf(t, ks[rapid.IntRange(0, len(ks)-1).Draw(t, "leafKind")], &treeOpts{str: func(t *rapid.T, l string) string {
		return pick(t, l, "", "x", "hello", "quo\"te\\", "中", "12", "-7.5", "true", "\n", "long string beyond any small buffer ................................")
	}})
}

// setScalar sets nv in place to leaf n.
func setScalar(nv *dx.DxValue, n *M, r *rnd) {
	switch n.K {
	case KNull, KNaN, KInf, KBin, KExt:
		nv.Reset(vt(n))
		fill(nv, n, r)
	case KBool:
		if r.n(2) == 0 {
			nv.SetBool(n.B)
		} else {
			nv.Reset(vt(n))
		}
	case KDouble:
		if nv.Type() == dx.VT_DateTime { // SetDouble keeps a date-time a date-time
			nv.Reset(dx.VT_Double)
		}
		nv.SetDouble(n.F)
	case KInt:
		if r.n(2) == 0 {
			nv.SetInt(n.I)
		} else {
			nv.SetValue(n.I)
		}
	case KString:
		nv.SetString(n.S)
	case KTime:
		nv.SetTime(time.UnixMilli(n.I))
	default:
		fill(nv, n, r)
	}
}

// pickNode walks to a random node of v / m in lockstep.
func pickNode(t *rapid.T, v *dx.DxValue, m *M) (*dx.DxValue, *M, string) {
	path := "$"
	for len(m.Kids) > 0 && m.isContainer() && rapid.IntRange(0, 2).Draw(t, "descend") > 0 {
		i := rapid.IntRange(0, len(m.Kids)-1).Draw(t, "child")
		if m.K == KObj {
			path += "." + m.Keys[i]
		} else {
			path += fmt.Sprintf("[%d]", i)
		}
		nv := v.ValueByIndex(i)
		if nv == nil {
			t.Fatalf("node %s vanished", path)
		}
		v, m = nv, m.Kids[i]
	}
	return v, m, path
}

// step applies one random edit. It returns an extracted value, if the edit took one out.
func (e *editor) step(t *rapid.T, root *dx.DxValue, rm *M) {
	nv, nm, path := pickNode(t, root, rm)
	r := drawRnd(t, "route")
	op := rapid.IntRange(0, 22).Draw(t, "op")
	if nv.ReadOnly() { // the shared constants: edit their parent instead
		nv, nm, path = root, rm, "$"
		if nv.ReadOnly() {
			return
		}
	}
	isRoot := nv == root
	if e.noRoot && isRoot && !nm.isContainer() {
		t.Fatalf("harness: root lost its type")
	}
	keep := func(arr bool) bool { // would a key/index write change the root's type?
		return e.noRoot && isRoot && (arr != (nm.K == KArr))
	}
	switch op {
	case 0, 1, 2, 3: // scalar by key
		if keep(false) {
			return
		}
		n, key := e.leaf(t), e.key(t, nm)
		e.logf("%s: set key %q = %s", path, key, n)
		doing("%s", e)
		addKey(nv, key, n, r)
		e.mPutKey(nm, key, n)
	case 4: // typed node by key, content untouched
		if keep(false) {
			return
		}
		n, key := e.tree(t), e.key(t, nm)
		e.logf("%s: SetKey %q %v", path, key, n.K)
		doing("%s", e)
		if n.K == KTime {
			n.K = KInt
		}
		got := nv.SetKey(key, vt(n))
		c := e.mSetKey(nm, key, n)
		if d := diff(c, e.look(got, r), cmpMode{}); d != "" {
			t.Fatalf("SetKey returned something else than the node: %s\n  %s", d, e)
		}
	case 5: // tree by key
		if keep(false) {
			return
		}
		n, key := e.tree(t), e.key(t, nm)
		e.logf("%s: SetKeyValue %q = %s", path, key, n)
		doing("%s", e)
		nv.SetKeyValue(key, build(n, r))
		e.mPutKey(nm, key, n)
	case 6, 7, 8: // scalar by index
		if keep(true) {
			return
		}
		n, i := e.leaf(t), e.index(t, nm)
		e.logf("%s: set index %d = %s", path, i, n)
		doing("%s", e)
		switch r.n(3) {
		case 0:
			switch n.K {
			case KInt:
				nv.SetIndexInt(i, n.I)
			case KFloat:
				nv.SetIndexFloat(i, float32(n.F))
			case KDouble:
				nv.SetIndexDouble(i, n.F)
			case KString:
				nv.SetIndexString(i, n.S)
			case KBool:
				nv.SetIndexBool(i, n.B)
			case KTime:
				nv.SetIndexTime(i, time.UnixMilli(n.I))
			default:
				fill(nv.SetIndex(i, vt(n)), n, r)
			}
		case 1:
			fill(nv.SetIndex(i, vt(n)), n, r)
		case 2:
			nv.SetIndexValue(i, build(n, r))
		}
		e.mPutIndex(nm, i, n)
	case 9: // typed node by index
		if keep(true) {
			return
		}
		n, i := e.tree(t), e.index(t, nm)
		if n.K == KTime {
			n.K = KInt
		}
		e.logf("%s: SetIndex %d %v", path, i, n.K)
		doing("%s", e)
		got := nv.SetIndex(i, vt(n))
		c := e.mSetIndex(nm, i, n)
		if d := diff(c, e.look(got, r), cmpMode{}); d != "" {
			t.Fatalf("SetIndex returned something else than the node: %s\n  %s", d, e)
		}
	case 10: // tree by index
		if keep(true) {
			return
		}
		n, i := e.tree(t), e.index(t, nm)
		e.logf("%s: SetIndexValue %d = %s", path, i, n)
		doing("%s", e)
		nv.SetIndexValue(i, build(n, r))
		e.mPutIndex(nm, i, n)
	case 11: // insert / append
		if keep(true) {
			return
		}
		n, i := e.tree(t), e.index(t, nm)
		app := r.n(2) == 0
		e.logf("%s: InsertValue %d (append %v) %s", path, i, app, n)
		doing("%s", e)
		if nm.K != KArr {
			*nm = M{K: KArr}
		}
		var got *dx.DxValue
		if app {
			got = nv.Append(vt(n))
			i = len(nm.Kids)
		} else {
			got = nv.InsertValue(i, vt(n))
			i = max(0, min(i, len(nm.Kids)))
		}
		if !got.ReadOnly() {
			fill(got, n, r)
		}
		nm.Kids = append(nm.Kids[:i:i], append([]*M{n}, nm.Kids[i:]...)...)
	case 12: // remove key
		key := e.key(t, nm)
		e.logf("%s: RemoveKey %q", path, key)
		doing("%s", e)
		nv.RemoveKey(key)
		if nm.K == KObj {
			if i := e.find(nm, key); i >= 0 {
				nm.removeAt(i)
			}
		}
	case 13: // remove index
		i := e.index(t, nm)
		e.logf("%s: RemoveIndex %d", path, i)
		doing("%s", e)
		nv.RemoveIndex(i)
		if nm.K == KArr && i >= 0 && i < len(nm.Kids) {
			nm.removeAt(i)
		}
	case 14: // extract, and put it back elsewhere or drop it
		key := e.key(t, nm)
		e.logf("%s: ExtractValue %q", path, key)
		doing("%s", e)
		got := nv.ExtractValue(key)
		var want *M
		if nm.K == KObj {
			if i := e.find(nm, key); i >= 0 {
				want = nm.Kids[i]
				nm.removeAt(i)
			}
		}
		if d := diff(want, e.look(got, r), cmpMode{}); d != "" {
			t.Fatalf("ExtractValue returned something else: %s\n  %s", d, e)
		}
		if want != nil && rapid.Bool().Draw(t, "putBack") {
			k := e.key(t, nm)
			e.logf("%s: ... put back as %q", path, k)
			nv.SetKeyValue(k, got)
			e.mPutKey(nm, k, want)
		}
	case 15: // force a path
		if keep(false) {
			return
		}
		n := e.tree(t)
		if n.K == KTime {
			n.K = KInt
		}
		var p []string
		cur := nm
		levels := rapid.IntRange(1, 4).Draw(t, "pathLen")
		if chance(t, "longPath", 24) {
			levels = pick(t, "longPathLen", 5, 8, 9, 16, 17, 33, 65)
		}
		for i := levels; i > 0; i-- {
			var k string
			if cur != nil {
				k = e.key(t, cur)
				if cur.K == KObj {
					if j := e.find(cur, k); j >= 0 {
						cur = cur.Kids[j]
					} else {
						cur = nil
					}
				} else if j, ok := arrIndex(k); ok && cur.K == KArr && j < len(cur.Kids) {
					cur = cur.Kids[j]
				} else {
					cur = nil
				}
			} else {
				k = e.freshKey(t)
			}
			p = append(p, k)
		}
		if e.noRoot && isRoot && nm.K == KArr {
			if _, ok := arrIndex(p[0]); !ok {
				return
			}
		}
		e.logf("%s: ForcePath %v %q", path, n.K, p)
		doing("%s", e)
		got := nv.ForcePath(vt(n), p...)
		c := e.mForce(nm, n, p)
		if d := diff(c, e.look(got, r), cmpMode{}); d != "" {
			t.Fatalf("ForcePath returned something else than the node: %s\n  %s", d, e)
		}
	case 16: // clear
		if e.noRoot && isRoot || nm.K == KTime {
			return
		}
		e.logf("%s: Clear", path)
		doing("%s", e)
		nv.Clear()
		*nm = *dflt(nm)
	case 17: // reset to a type
		if e.noRoot && isRoot {
			return
		}
		n := e.tree(t)
		if n.K == KTime {
			n.K = KInt
		}
		e.logf("%s: Reset %v", path, n.K)
		doing("%s", e)
		nv.Reset(vt(n))
		*nm = *dflt(n)
	case 18: // change in place
		if e.noRoot && isRoot {
			return
		}
		n := e.leaf(t)
		e.logf("%s: becomes %s", path, n)
		doing("%s", e)
		setScalar(nv, n, r)
		*nm = *n
	case 20: // become a copy of another value
		n := e.tree(t)
		if e.noRoot && isRoot && n.K != nm.K {
			return
		}
		e.logf("%s: CopyFrom %s", path, n)
		doing("%s", e)
		nv.CopyFrom(build(n, r), nil)
		*nm = *n
	case 21: // become a copy of another part of this document
		sv, sm, from := pickNode(t, root, rm)
		if e.noRoot && isRoot && sm.K != nm.K || rm.nodes()+sm.nodes() > 300 {
			return
		}
		var sc *dx.ValueCache
		if rapid.Bool().Draw(t, "ownCache") {
			sc = nv.ValueCache()
		}
		if sm.K == nm.K && sm.isContainer() && rapid.Bool().Draw(t, "addPart") {
			e.logf("%s: AddFrom %s", path, from)
			doing("%s", e)
			nv.AddFrom(sv, sc)
			e.addMembers(nm, sm.clone())
			return
		}
		e.logf("%s: CopyFrom %s", path, from)
		doing("%s", e)
		nv.CopyFrom(sv, sc)
		*nm = *sm.clone()
	case 22: // load a JSON text into a part of the document
		n := e.tree(t)
		if isRoot || !jsonable(n) {
			return
		}
		b := renderJSON(n, r)
		e.logf("%s: LoadFromJson %q", path, b)
		doing("%s", e)
		twin, err := dx.NewValueFromJson(append([]byte(nil), b...), false, false)
		if err == nil {
			err = nv.LoadFromJson(b, r.n(2) == 0)
		}
		if err != nil {
			t.Fatalf("LoadFromJson of a valid text: %v\n  %s", err, e)
		}
		*nm = *observe(twin, nil)
	case 19: // add the members of another container
		n := e.tree(t)
		if chance(t, "addMany", 24) && rm.nodes() < 2000 { // many, with equal ones next to each other
			n = &M{K: nm.K}
			few := []*M{e.leaf(t), e.leaf(t)}
			for i, l := 0, pick(t, "addCount", 60, 130, 260, 300, 600); i < l; i++ {
				n.Kids = append(n.Kids, few[r.n(2)].clone())
				if nm.K == KObj {
					n.Keys = append(n.Keys, strconv.Itoa(i%250)+"_"+strconv.Itoa(i))
				}
			}
		}
		if n.K != nm.K || !n.isContainer() {
			return
		}
		e.logf("%s: AddFrom %s", path, n)
		doing("%s", e)
		nv.AddFrom(build(n, r), nil)
		e.addMembers(nm, n)
	}
}

// addMembers: what AddFrom does.
func (e *editor) addMembers(nm, n *M) {
	if nm.K == KArr {
		nm.Kids = append(nm.Kids, n.Kids...)
		return
	}
	for i, k := range n.Keys {
		if e.find(nm, k) < 0 {
			nm.Keys = append(nm.Keys, k)
			nm.Kids = append(nm.Kids, n.Kids[i])
		}
	}
}

// within: is x a node of the tree m?
func within(x, m *M) bool {
	found := false
	m.walk(func(n *M) { found = found || n == x })
	return found
}

// probe compares direct lookups with the model.
func (e *editor) probe(t *rapid.T, v *dx.DxValue, m *M) {
	nv, nm, path := pickNode(t, v, m)
	key := e.key(t, nm)
	var want *M
	switch nm.K {
	case KObj:
		if i := e.find(nm, key); i >= 0 {
			want = nm.Kids[i]
		}
	case KArr:
		if i, ok := arrIndex(key); ok && i < len(nm.Kids) {
			want = nm.Kids[i]
		}
	}
	var got *dx.DxValue
	switch rapid.IntRange(0, 2).Draw(t, "by") {
	case 0:
		got = nv.ValueByName(key)
	case 1:
		got = nv.Find(key)
	case 2:
		got = nv.ValueByPath(key)
	}
	if d := diff(want, observe(got, nil), cmpMode{}); d != "" {
		t.Fatalf("lookup of %q in %s: %s\n  %s", key, path, d, e)
	}
	if nv.Count() != len(nm.Kids) {
		t.Fatalf("Count of %s is %d, want %d\n  %s", path, nv.Count(), len(nm.Kids), e)
	}
	i := e.index(t, nm)
	want = nil
	wantKey := ""
	if i >= 0 && i < len(nm.Kids) {
		want = nm.Kids[i]
		if nm.K == KObj {
			wantKey = nm.Keys[i]
		}
	}
	k2, got2 := nv.Items(i)
	if d := diff(want, observe(got2, nil), cmpMode{}); d != "" || k2 != wantKey || nv.KeyNameByIndex(i) != wantKey {
		t.Fatalf("item %d of %s: key %q want %q, %s\n  %s", i, path, k2, wantKey, d, e)
	}
	if d := diff(want, observe(nv.ValueByIndex(i), nil), cmpMode{}); d != "" {
		t.Fatalf("ValueByIndex %d of %s: %s\n  %s", i, path, d, e)
	}
	// the texts follow the edits too
	if nm.isContainer() {
		num := cmpMode{numeric: true, textBin: true}
		switch rapid.IntRange(0, 5).Draw(t, "text") {
		case 4:
			if d := diff(nm, jsonMeaning([]byte(nv.String())), num); d != "" {
				t.Fatalf("String() of %s: %s\n  %s", path, d, e)
			}
		case 5:
			if d := diff(nm, jsonMeaning(nv.ToJson(rapid.Bool().Draw(t, "formatted"), dx.JSE_OnlyAnsiChar, true, nil)), num); d != "" {
				t.Fatalf("ToJson of %s: %s\n  %s", path, d, e)
			}
		}
	}
}
