package harness

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

// ---------------------------------------------------------------------------
// The model: an ordered document tree, independent of the library.
// ---------------------------------------------------------------------------

type Kind uint8

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat  // 32 bit
	KDouble // 64 bit
	KString
	KTime // milliseconds since the Unix epoch in I
	KBin  // Bin (Ext: the BSON flavour where it matters)
	KExt  // Bin plus a type byte in Ext
	KObj
	KArr
	KNaN    // the library's NaN constant
	KInf    // the library's INF constant
	KAbsent // a member or element without a value (a nil one)
)

var kindNames = [...]string{"null", "bool", "int", "float32", "double", "string", "time", "bin", "ext", "object", "array", "nan", "inf", "absent"}

func (k Kind) String() string { return kindNames[k] }

type M struct {
	K    Kind
	B    bool
	I    int64
	F    float64
	S    string
	Bin  []byte
	Ext  byte
	Keys []string
	Kids []*M
}

func (m *M) isContainer() bool { return m.K == KObj || m.K == KArr }

func (m *M) get(key string) *M {
	for i, k := range m.Keys {
		if k == key {
			return m.Kids[i]
		}
	}
	return nil
}

func (m *M) keyIndex(key string) int {
	for i, k := range m.Keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *M) clone() *M {
	if m == nil {
		return nil
	}
	n := *m
	n.Bin = append([]byte(nil), m.Bin...)
	n.Keys = append([]string(nil), m.Keys...)
	n.Kids = make([]*M, len(m.Kids))
	for i, k := range m.Kids {
		n.Kids[i] = k.clone()
	}
	return &n
}

func (m *M) walk(f func(*M)) {
	f(m)
	for _, k := range m.Kids {
		k.walk(f)
	}
}

func (m *M) nodes() int {
	n := 0
	m.walk(func(*M) { n++ })
	return n
}

func (m *M) depth() int {
	d := 0
	for _, k := range m.Kids {
		if kd := k.depth(); kd > d {
			d = kd
		}
	}
	return d + 1
}

// String renders the tree unambiguously (used as case identity and in reports).
func (m *M) String() string {
	var sb strings.Builder
	m.render(&sb)
	return sb.String()
}

func (m *M) render(sb *strings.Builder) {
	if m == nil {
		sb.WriteString("<nil>")
		return
	}
	switch m.K {
	case KNull, KNaN, KInf, KAbsent:
		sb.WriteString(m.K.String())
	case KBool:
		fmt.Fprintf(sb, "%v", m.B)
	case KInt:
		sb.WriteString(strconv.FormatInt(m.I, 10))
	case KFloat:
		sb.WriteString("f32:" + strconv.FormatFloat(m.F, 'g', -1, 64))
	case KDouble:
		sb.WriteString("f64:" + strconv.FormatFloat(m.F, 'g', -1, 64))
	case KString:
		if len(m.S) > 200 {
			fmt.Fprintf(sb, "str[%d]%s..%s", len(m.S), strconv.QuoteToASCII(m.S[:60]), strconv.QuoteToASCII(m.S[len(m.S)-20:]))
		} else {
			sb.WriteString(strconv.QuoteToASCII(m.S))
		}
	case KTime:
		sb.WriteString("time:" + time.UnixMilli(m.I).UTC().Format("2006-01-02T15:04:05.000Z"))
	case KBin, KExt:
		if len(m.Bin) > 64 {
			fmt.Fprintf(sb, "%v(%d)[%d]%x..", m.K, m.Ext, len(m.Bin), m.Bin[:32])
		} else {
			fmt.Fprintf(sb, "%v(%d)%x", m.K, m.Ext, m.Bin)
		}
	case KObj:
		sb.WriteByte('{')
		for i, k := range m.Keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			if i > 80 {
				fmt.Fprintf(sb, "...%d keys", len(m.Keys))
				break
			}
			if len(k) > 120 {
				fmt.Fprintf(sb, "key[%d]%s..", len(k), strconv.QuoteToASCII(k[:40]))
			} else {
				sb.WriteString(strconv.QuoteToASCII(k))
			}
			sb.WriteByte(':')
			m.Kids[i].render(sb)
		}
		sb.WriteByte('}')
	case KArr:
		sb.WriteByte('[')
		for i, k := range m.Kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if i > 80 {
				fmt.Fprintf(sb, "...%d items", len(m.Kids))
				break
			}
			k.render(sb)
		}
		sb.WriteByte(']')
	}
}

// cmpMode says which type distinctions a format is allowed to lose.
type cmpMode struct {
	numeric bool // int / float32 / double compare by numeric value
	anyBin  bool // the Ext flavour of plain binaries is not compared
	textBin bool // binaries and date-times may have become anything (JSON has no such types)
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || math.IsNaN(a) && math.IsNaN(b)
}

func isNum(k Kind) bool { return k == KInt || k == KFloat || k == KDouble }

// exactly compares an int64 with a float64 without rounding.
func intEqFloat(i int64, f float64) bool {
	if f != math.Trunc(f) || f < -9223372036854775808 || f >= 9223372036854775808 {
		return false
	}
	return int64(f) == i
}

// numEq: want a, got b. Integers must survive exactly; a double that comes back as an integer literal must
// denote the same double.
func numEq(a, b *M) bool {
	switch {
	case a.K == KInt && b.K == KInt:
		return a.I == b.I
	case a.K == KInt:
		return intEqFloat(a.I, b.F)
	case b.K == KInt:
		return float64(b.I) == a.F
	}
	return sameFloat(a.F, b.F)
}

// diff returns "" if want and got are the same document, else a description of the first difference.
func diff(want, got *M, mode cmpMode) string { return diffAt("$", want, got, mode) }

func short(m *M) string {
	return clip(m.String(), 300)
}

func diffAt(path string, a, b *M, mode cmpMode) string {
	bad := func() string { return fmt.Sprintf("at %s: want %v %s, got %v %s", path, a.K, short(a), b.K, short(b)) }
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("at %s: want %s, got %s", path, short(a), short(b))
	}
	if mode.textBin && (a.K == KBin || a.K == KExt || a.K == KTime) {
		return ""
	}
	if mode.numeric && isNum(a.K) && isNum(b.K) {
		if !numEq(a, b) {
			return bad()
		}
		return ""
	}
	if a.K != b.K {
		return bad()
	}
	switch a.K {
	case KBool:
		if a.B != b.B {
			return bad()
		}
	case KInt, KTime:
		if a.I != b.I {
			return bad()
		}
	case KFloat, KDouble:
		if !sameFloat(a.F, b.F) {
			return bad()
		}
	case KString:
		if a.S != b.S {
			return bad()
		}
	case KBin:
		if !bytes.Equal(a.Bin, b.Bin) || !mode.anyBin && a.Ext != b.Ext {
			return bad()
		}
	case KExt:
		if !bytes.Equal(a.Bin, b.Bin) || a.Ext != b.Ext {
			return bad()
		}
	case KObj:
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("at %s: want %d keys %s, got %d keys %s", path, len(a.Keys), short(a), len(b.Keys), short(b))
		}
		for i := range a.Keys {
			if a.Keys[i] != b.Keys[i] {
				return fmt.Sprintf("at %s: key %d: want %s, got %s", path, i, clip(strconv.QuoteToASCII(a.Keys[i]), 200), clip(strconv.QuoteToASCII(b.Keys[i]), 200))
			}
			if d := diffAt(path+"."+clip(strconv.QuoteToASCII(a.Keys[i]), 40), a.Kids[i], b.Kids[i], mode); d != "" {
				return d
			}
		}
	case KArr:
		if len(a.Kids) != len(b.Kids) {
			return fmt.Sprintf("at %s: want %d items %s, got %d items %s", path, len(a.Kids), short(a), len(b.Kids), short(b))
		}
		for i := range a.Kids {
			if d := diffAt(fmt.Sprintf("%s[%d]", path, i), a.Kids[i], b.Kids[i], mode); d != "" {
				return d
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// Observing a library value through its public API.
// ---------------------------------------------------------------------------

// rnd is a tiny deterministic stream derived from one drawn number; it picks
// among equivalent API routes. Seed 0 always picks route 0.
type rnd struct{ s uint64 }

func (r *rnd) n(k int) int {
	if r == nil || r.s == 0 {
		return 0
	}
	r.s ^= r.s << 13
	r.s ^= r.s >> 7
	r.s ^= r.s << 17
	return int((r.s >> 11) % uint64(k))
}

// observe reads the whole document through the public accessors.
func observe(v *dx.DxValue, r *rnd) *M {
	if v == nil {
		return nil
	}
	switch v.Type() {
	case dx.VT_Object:
		m := &M{K: KObj}
		n := v.Count()
		switch r.n(4) {
		case 0:
			for i := 0; i < n; i++ {
				k, c := v.Items(i)
				m.Keys = append(m.Keys, strings.Clone(k))
				m.Kids = append(m.Kids, observe(c, r))
			}
		case 1:
			v.Visit(func(k string, c *dx.DxValue) bool {
				m.Keys = append(m.Keys, strings.Clone(k))
				m.Kids = append(m.Kids, observe(c, r))
				return true
			})
			if !visitStops(v, n, r) {
				return &M{K: KString, S: "?Visit does not stop when told to"}
			}
		case 2:
			for i := 0; i < n; i++ {
				m.Keys = append(m.Keys, strings.Clone(v.KeyNameByIndex(i)))
				m.Kids = append(m.Kids, observe(v.ValueByIndex(i), r))
			}
		case 3:
			for i := 0; i < n; i++ {
				k := v.KeyNameByIndex(i)
				m.Keys = append(m.Keys, strings.Clone(k))
				m.Kids = append(m.Kids, observe(v.ValueByName(k), r))
			}
		}
		return m
	case dx.VT_Array:
		m := &M{K: KArr}
		n := v.Count()
		switch r.n(4) {
		case 0:
			for i := 0; i < n; i++ {
				_, c := v.Items(i)
				m.Kids = append(m.Kids, observe(c, r))
			}
		case 1:
			v.Visit(func(k string, c *dx.DxValue) bool {
				m.Kids = append(m.Kids, observe(c, r))
				return true
			})
			if !visitStops(v, n, r) {
				return &M{K: KString, S: "?Visit does not stop when told to"}
			}
		case 2:
			for i := 0; i < n; i++ {
				m.Kids = append(m.Kids, observe(v.ValueByIndex(i), r))
			}
		case 3:
			for i := 0; i < n; i++ {
				m.Kids = append(m.Kids, observe(v.ValueByPath(strconv.Itoa(i)), r))
			}
		}
		return m
	case dx.VT_String, dx.VT_RawString:
		return &M{K: KString, S: strings.Clone(v.String())}
	case dx.VT_Int:
		return &M{K: KInt, I: v.Int()}
	case dx.VT_Float:
		return &M{K: KFloat, F: float64(v.Float())}
	case dx.VT_Double:
		return &M{K: KDouble, F: v.Double()}
	case dx.VT_DateTime:
		return &M{K: KTime, I: roundMs(v.GoTime())}
	case dx.VT_Binary:
		return &M{K: KBin, Bin: append([]byte(nil), v.Binary()...), Ext: v.ExtType}
	case dx.VT_ExBinary:
		return &M{K: KExt, Bin: append([]byte(nil), v.Binary()...), Ext: v.BinExtType()}
	case dx.VT_NULL:
		return &M{K: KNull}
	case dx.VT_True:
		return &M{K: KBool, B: true}
	case dx.VT_False:
		return &M{K: KBool, B: false}
	case dx.VT_NAN:
		return &M{K: KNaN}
	case dx.VT_INF:
		return &M{K: KInf}
	}
	return &M{K: KString, S: fmt.Sprintf("?type %d", v.Type())}
}

// visitStops: Visit ends where its callback says so.
func visitStops(v *dx.DxValue, n int, r *rnd) bool {
	if n == 0 {
		return true
	}
	at, calls := r.n(n), 0
	v.Visit(func(string, *dx.DxValue) bool {
		calls++
		return calls <= at
	})
	return calls == at+1
}

func roundMs(t time.Time) int64 {
	return t.Unix()*1000 + (int64(t.Nanosecond())+500000)/1000000
}

// ---------------------------------------------------------------------------
// Building a library value from a model tree through the public API.
// ---------------------------------------------------------------------------

func vt(m *M) dx.ValueType {
	switch m.K {
	case KNull:
		return dx.VT_NULL
	case KBool:
		if m.B {
			return dx.VT_True
		}
		return dx.VT_False
	case KInt:
		return dx.VT_Int
	case KFloat:
		return dx.VT_Float
	case KDouble:
		return dx.VT_Double
	case KString:
		return dx.VT_String
	case KTime:
		return dx.VT_DateTime
	case KBin:
		return dx.VT_Binary
	case KExt:
		return dx.VT_ExBinary
	case KArr:
		return dx.VT_Array
	case KNaN:
		return dx.VT_NAN
	case KInf:
		return dx.VT_INF
	}
	return dx.VT_Object
}

// fill makes v, already of m's type, hold m's contents.
func fill(v *dx.DxValue, m *M, r *rnd) {
	switch m.K {
	case KInt:
		v.SetInt(m.I)
	case KFloat:
		v.SetFloat(float32(m.F))
	case KDouble:
		v.SetDouble(m.F)
	case KString:
		v.SetString(m.S)
	case KTime:
		v.SetTime(time.UnixMilli(m.I))
	case KBin:
		v.SetBinary(append([]byte(nil), m.Bin...), r.n(2) == 0)
		v.ExtType = m.Ext // setting a binary in place keeps the flavour it had
	case KExt:
		v.SetExtType(m.Ext)
		v.SetBinary(append([]byte(nil), m.Bin...), r.n(2) == 0)
	case KObj:
		for i, k := range m.Keys {
			addKey(v, k, m.Kids[i], r)
		}
	case KArr:
		for i, k := range m.Kids {
			addIndex(v, i, k, r)
		}
	}
}

func addKey(v *dx.DxValue, key string, c *M, r *rnd) {
	switch r.n(4) {
	case 0:
		switch c.K {
		case KInt:
			v.SetKeyInt(key, c.I)
			return
		case KFloat:
			v.SetKeyFloat(key, float32(c.F))
			return
		case KDouble:
			v.SetKeyDouble(key, c.F)
			return
		case KString:
			v.SetKeyString(key, c.S)
			return
		case KBool:
			v.SetKeyBool(key, c.B)
			return
		case KTime:
			v.SetKeyTime(key, time.UnixMilli(c.I))
			return
		}
		fill(v.SetKey(key, vt(c)), c, r)
	case 1:
		fill(v.SetKey(key, vt(c)), c, r)
	case 2:
		v.SetKeyValue(key, build(c, r))
	case 3:
		fill(v.SetKeyCached(key, vt(c), v.ValueCache()), c, r)
	}
}

func addIndex(v *dx.DxValue, i int, c *M, r *rnd) {
	switch r.n(5) {
	case 0:
		switch c.K {
		case KInt:
			v.SetIndexInt(i, c.I)
			return
		case KFloat:
			v.SetIndexFloat(i, float32(c.F))
			return
		case KDouble:
			v.SetIndexDouble(i, c.F)
			return
		case KString:
			v.SetIndexString(i, c.S)
			return
		case KBool:
			v.SetIndexBool(i, c.B)
			return
		case KTime:
			v.SetIndexTime(i, time.UnixMilli(c.I))
			return
		}
		fill(v.SetIndex(i, vt(c)), c, r)
	case 1:
		fill(v.SetIndex(-1, vt(c)), c, r)
	case 2:
		v.SetIndexValue(i, build(c, r))
	case 3:
		fill(v.Append(vt(c)), c, r)
	case 4:
		fill(v.SetIndexCached(i, vt(c), v.ValueCache()), c, r)
	}
}

// build makes a fresh document. The route stream decides cached/uncached and which setters are used.
func build(m *M, r *rnd) *dx.DxValue {
	var v *dx.DxValue
	switch r.n(3) {
	case 0:
		switch m.K {
		case KObj:
			v = dx.NewObject(false)
		case KArr:
			v = dx.NewArray(false)
		default:
			v = dx.NewValue(vt(m))
		}
	case 1:
		v = dx.NewCacheValue(vt(m))
	case 2:
		v = dx.NewValue(vt(m))
	}
	fill(v, m, r)
	return v
}
