package harness

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func chance(t *rapid.T, label string, oneIn int) bool {
	return rapid.IntRange(0, oneIn-1).Draw(t, label) == oneIn-1
}

// rare is true once in 2^pow (chance is never rarer than some 2%, as rapid prefers the ends of ranges).
func rare(t *rapid.T, label string, pow int) bool {
	for i := 0; i < pow; i++ {
		if !rapid.Bool().Draw(t, label) {
			return false
		}
	}
	return true
}

func drawRnd(t *rapid.T, label string) *rnd {
	return &rnd{s: rapid.Uint64().Draw(t, label)}
}

// lengths at which an encoding changes form
var edgeLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000}
var bigLens = []int{32767, 32768, 65534, 65535, 65536, 65537, 70000}
var hugeLens = []int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 1<<16 + 300, 1<<25 + 1<<16 + 5}

func drawLen(t *rapid.T, label string, big bool) int {
	if big && chance(t, label+"Big", 12) {
		if rare(t, label+"Huge", 8) {
			return pick(t, label, hugeLens...)
		}
		return pick(t, label, bigLens...)
	}
	if chance(t, label+"Mid", 12) { // any size up to some kilobytes
		return (1 << uint(rapid.IntRange(6, 12).Draw(t, label+"Pow"))) + rapid.IntRange(-2, 60).Draw(t, label+"Off")
	}
	return pick(t, label, edgeLens...)
}

func drawInt(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 5).Draw(t, label+"How") {
	case 5: // next to the middle between two neighbouring floats or doubles
		sh := uint(rapid.IntRange(26, 62).Draw(t, label+"Pow"))
		bits := pick(t, label+"Bits", uint(24), 24, 53)
		if bits > sh {
			bits = 24
		}
		v := int64(1)<<sh + int64(pick(t, label+"Half", 1, 1, 3, 5, 7))<<(sh-bits) + int64(rapid.IntRange(-1, 1).Draw(t, label+"Off"))
		if rapid.Bool().Draw(t, label+"Neg") {
			return -v
		}
		return v
	case 0:
		return int64(rapid.IntRange(-3, 20).Draw(t, label))
	case 1: // around powers of two
		sh := uint(rapid.IntRange(0, 63).Draw(t, label+"Pow"))
		v := int64(uint64(1) << sh)
		d := int64(rapid.IntRange(-2, 2).Draw(t, label+"Off"))
		if rapid.Bool().Draw(t, label+"Neg") {
			return -v + d
		}
		return v + d
	case 2: // around powers of ten
		v := int64(1)
		for i := rapid.IntRange(0, 18).Draw(t, label+"P10"); i > 0; i-- {
			v *= 10
		}
		d := int64(rapid.IntRange(-1, 1).Draw(t, label+"Off"))
		if rapid.Bool().Draw(t, label+"Neg") {
			return -v + d
		}
		return v + d
	case 3:
		return pick(t, label, int64(math.MaxInt64), math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxUint32, 1<<53, 1<<53+1, -(1<<53)-1)
	}
	return rapid.Int64().Draw(t, label)
}

func drawDouble(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 6).Draw(t, label+"How") {
	case 6: // a power of ten or two, an integer, or a neighbour of one
		f := 0.0
		switch rapid.IntRange(0, 2).Draw(t, label+"Near") {
		case 0:
			f, _ = strconv.ParseFloat("1e"+strconv.Itoa(rapid.IntRange(-30, 40).Draw(t, label+"Exp10")), 64)
		case 1:
			f = math.Ldexp(1, rapid.IntRange(-1074, 1023).Draw(t, label+"Exp2"))
		case 2:
			f = float64(drawInt(t, label+"Int"))
		}
		switch rapid.IntRange(-1, 1).Draw(t, label+"Ulp") {
		case -1:
			f = math.Nextafter(f, math.Inf(-1))
		case 1:
			f = math.Nextafter(f, math.MaxFloat64)
		}
		if rapid.Bool().Draw(t, label+"Sign") {
			f = -f
		}
		return f
	case 0:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, label)) / 10
	case 1:
		return float64(drawInt(t, label))
	case 2:
		f := math.Float64frombits(rapid.Uint64().Draw(t, label))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0.1
		}
		return f
	case 3:
		return pick(t, label, 0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1.5, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.123456789, 1e-5, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, 167.3, 3.14159265358979, 4503599627370497.5)
	case 4:
		return float64(float32(rapid.Float64Range(-1e6, 1e6).Draw(t, label)))
	}
	return rapid.Float64Range(-1e9, 1e9).Draw(t, label)
}

func drawFloat32(t *rapid.T, label string) float32 {
	switch rapid.IntRange(0, 3).Draw(t, label+"How") {
	case 0:
		return float32(rapid.IntRange(-100, 100).Draw(t, label)) / 8
	case 1:
		f := math.Float32frombits(rapid.Uint32().Draw(t, label))
		if f != f || math.IsInf(float64(f), 0) {
			return 0.1
		}
		return f
	case 2:
		return pick[float32](t, label, 0, float32(math.Copysign(0, -1)), 1, -1, 0.1, 1.5, 16777216, 16777217, math.MaxFloat32, 1e-45, 3.4e38, 1e10)
	}
	return rapid.Float32Range(-1e6, 1e6).Draw(t, label)
}

var strPieces = []string{
	"a", "b", "Key", "0", "1", " ", "\"", "\\", "/", "'", "\b", "\f", "\n", "\r", "\t", "\x00", "\x01", "\x1f", "\x0b", "\a", "\x7f",
	"\\n", "\\u0041", "\\\"", "\\\\", "%41", "%20", "%", "%%", "%u4e2d", "\\/", "\\x", "\\u", "&#34;", "<", ">", "&", "é", "ß", "中", "文字", "\u2028", "\u2029", "\ufeff", "\ufffd", "\uffff", "𝄞", "😀", "\U0010ffff", "\u0080",
	"{", "}", "[", "]", ":", ",", "#", "-", "- ", ": ", "*", "&x", "!", "|", "true", "null", "nan", "Date(", ")", "$", "@", "`", "~", "Ā", "\u07ff", "\u0800",
}

const fillAlphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// fillStr is a string of exactly n bytes, determined by n and salt.
func fillStr(n int, salt int) string {
	b := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = fillAlphabet[(x>>16)%uint32(len(fillAlphabet))]
	}
	return string(b)
}

func fillBytes(n int, salt int) []byte {
	b := make([]byte, n)
	switch salt { // degenerate contents
	case -1:
		return b
	case -2:
		return bytes.Repeat([]byte{0xff}, n)
	case -3:
		return bytes.Repeat([]byte{' '}, n)
	case -4, -5, -6: // zeros with something at one end, or at both
		if n > 0 && salt != -5 {
			b[n-1] = 1
		}
		if n > 0 && salt != -4 {
			b[0] = 0x80
		}
		return b
	}
	x := uint32(salt)*2654435761 + 777
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 16)
	}
	return b
}

// dateish: strings the JSON reader documents as dates, so not plain strings.
func dateish(s string) bool {
	return strings.HasPrefix(s, "Date(") || strings.HasPrefix(s, "/Date(")
}

// typedTexts: strings that look like values of other types.
var typedTexts = []string{
	"2020-01-02T03:04:05Z", "2006-01-02 15:04:05", "2006/01/02 15:04:05", "2020-01-02T03:04:05+08:00", "2020-01-02", "2020/01/02", "15:04:05", "2020-01-02T03:04:05.678Z", "1999-12-31 23:59:59.5", "2020-13-45 99:99:99",
	"3s", "1h30m", "-2ms", "5", "0", "-1", "00012", "12abc", "1.5", "-0.25", "1e3", "1E-2", ".5", "5.", "+7", "0x1F", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "123456789012345678901234567890",
	"true", "false", "True", "TRUE", "null", "nan", "NaN", "inf", "Infinity", "-inf", "yes", "on", "1 ", " 1", "t", "43831.5", "/Date", "Date", "[1,2]", "{\"a\":1}", "\"q\"", "'q'", "AQID", "aGVsbG8=",
}

func drawStr(t *rapid.T, label string, big bool) string {
	var s string
	switch rapid.IntRange(0, 7).Draw(t, label+"How") {
	case 7: // the same few pieces over and over, or once more rarely
		n := rapid.IntRange(0, 6).Draw(t, label+"N")
		if chance(t, label+"Many", 6) {
			n = pick(t, label+"Times", 10, 20, 33, 60, 70, 100, 130, 260, 520, 1100)
		}
		var ps []string
		for i := rapid.IntRange(1, 4).Draw(t, label+"Kinds"); i > 0; i-- {
			ps = append(ps, strPieces[rapid.IntRange(0, len(strPieces)-1).Draw(t, label+"P")])
		}
		s = strings.Repeat(strings.Join(ps, ""), n)
	case 6:
		s = typedTexts[rapid.IntRange(0, len(typedTexts)-1).Draw(t, label+"Typed")]
	case 0, 1:
		n := rapid.IntRange(0, 6).Draw(t, label+"N")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(strPieces[rapid.IntRange(0, len(strPieces)-1).Draw(t, label+"P")])
		}
		s = sb.String()
	case 2:
		s = rapid.StringMatching("[a-z]{0,8}").Draw(t, label)
	case 3:
		s = fillStr(drawLen(t, label+"L", big), rapid.IntRange(0, 3).Draw(t, label+"Salt"))
	case 4:
		s = rapid.StringN(0, 12, -1).Draw(t, label)
	case 5: // a special piece at a chosen place in a filler of chosen length
		n := drawLen(t, label+"L", false)
		p := strPieces[rapid.IntRange(0, len(strPieces)-1).Draw(t, label+"P")]
		f := fillStr(n, 1)
		at := 0
		if n > 0 {
			at = pick(t, label+"At", 0, n, n/2)
		}
		s = f[:at] + p + f[at:]
	}
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	if dateish(s) {
		s = "x" + s
	}
	return s
}

func drawBytes(t *rapid.T, label string, big bool) []byte {
	switch rapid.IntRange(0, 2).Draw(t, label+"How") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, label)
	case 1:
		return fillBytes(drawLen(t, label+"L", big), rapid.IntRange(-6, 5).Draw(t, label+"Salt"))
	}
	b := fillBytes(rapid.IntRange(0, 40).Draw(t, label+"L"), rapid.IntRange(-6, 50).Draw(t, label+"Salt"))
	return b
}

var (
	minTimeMs = time.Date(1, 1, 3, 0, 0, 0, 0, time.UTC).UnixMilli()
	maxTimeMs = time.Date(9999, 12, 30, 0, 0, 0, 0, time.UTC).UnixMilli()
)

// drawTime: milliseconds since the epoch, 1..9999, never a wall-clock time the local zone skips or repeats.
func drawTime(t *rapid.T, label string) int64 {
	lo, hi := minTimeMs, maxTimeMs
	var ms int64
	switch rapid.IntRange(0, 6).Draw(t, label+"How") {
	case 5: // around powers of two of seconds and milliseconds
		u := int64(1) << uint(rapid.IntRange(24, 37).Draw(t, label+"Pow"))
		ms = (u + int64(rapid.IntRange(-2, 2).Draw(t, label+"Off"))) * 1000
		ms += int64(pick(t, label+"E", 0, 0, 0, 1, 5, 500, 999))
		if chance(t, label+"Ms", 3) {
			ms /= 1000
		}
	case 6:
		ms = rapid.Int64Range(lo, time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC).UnixMilli()).Draw(t, label)
	case 0:
		ms = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC).UnixMilli() + int64(rapid.IntRange(0, 400*86400).Draw(t, label+"S"))*1000
	case 1:
		ms = rapid.Int64Range(lo, hi).Draw(t, label)
	case 2: // around day, second and epoch edges
		day := int64(rapid.IntRange(-25000, 80000).Draw(t, label+"D"))
		if chance(t, label+"Far", 4) {
			day *= 30
		}
		ms = day*86400000 + int64(pick(t, label+"E", -1000, -999, -1, 0, 1, 999, 1000, 3600000, 43200000, 86399999))
	case 3:
		ms = int64(pick[int64](t, label, 0, 1, -1, 999, 1000, -1000, 1<<31*1000, (1<<31-1)*1000, (1<<32)*1000, (1<<32-1)*1000, 1<<32, 123456789, 1234567890, 999999999, 1000000000, 12345678, 951782400000, 1582934400000, -2208988800000+86400000*2))
	case 4: // around the zone's DST switches: last Sundays of March / October, any year
		y := rapid.IntRange(1970, 2037).Draw(t, label+"Y")
		mth := time.Month(rapid.IntRange(1, 12).Draw(t, label+"M"))
		d := time.Date(y, mth, 1, 0, 0, 0, 0, time.UTC)
		ms = d.UnixMilli() + int64(rapid.IntRange(0, 31*24*4).Draw(t, label+"Q"))*900000
	}
	if ms < lo {
		ms = lo
	}
	if ms > hi {
		ms = hi
	}
	return unambiguous(ms)
}

// unambiguous moves ms forward until its local wall-clock reading denotes exactly that instant.
func unambiguous(ms int64) int64 {
	for i := 0; i < 400; i++ {
		if wallIsUnique(ms) {
			return ms
		}
		ms += 6 * 3600 * 1000
	}
	return ms
}

func wallIsUnique(ms int64) bool {
	t := time.UnixMilli(ms).In(time.Local)
	_, off := t.Zone()
	if off%60 != 0 { // local mean time offsets
		return false
	}
	for _, d := range []time.Duration{-26 * time.Hour, -3 * time.Hour, -2 * time.Hour, -time.Hour, time.Hour, 2 * time.Hour, 3 * time.Hour, 26 * time.Hour} {
		if _, o := t.Add(d).Zone(); o != off && d >= -3*time.Hour && d <= 3*time.Hour {
			return false
		} else if o-off > 4*3600 || off-o > 4*3600 {
			return false
		}
	}
	return true
}

// treeOpts says what a generated document may contain.
type treeOpts struct {
	kinds   []Kind // leaves
	depth   int
	big     bool // boundary-sized strings / containers beyond 64K allowed
	key     func(t *rapid.T, label string) string
	str     func(t *rapid.T, label string) string
	root    []Kind
	maxFan  int
	hugeObj bool // objects beyond 64K keys too (slow: key lookup is linear)
	wide    bool // occasionally containers at count boundaries
	mid     bool // occasionally containers of 9 to 300 members
	timeOf  func(t *rapid.T, label string) int64
	anyInts func(t *rapid.T, label string) int64
}

func drawKey(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label+"How") {
	case 0, 1:
		if chance(t, label+"Long", 20) { // alike for a long way
			k := strings.Repeat("p", pick(t, label+"Prefix", 7, 8, 15, 16, 31, 32, 63, 64, 70, 127, 128, 255, 256, 300))
			return pick(t, label, k+"1", k+"2", k, k+"pp", "1"+k, "2"+k)
		}
		return pick(t, label, "a", "b", "c", "d", "name", "Name", "NAME", "id", "x", "0", "1", "2", "-1", "", "key", "key1", "k")
	case 2:
		return drawStr(t, label, false)
	case 3:
		return rapid.StringMatching("[a-zA-Z_][a-zA-Z0-9_]{0,9}").Draw(t, label)
	}
	n := rapid.IntRange(1, 4).Draw(t, label+"N")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(strPieces[rapid.IntRange(0, len(strPieces)-1).Draw(t, label+"P")])
	}
	return sb.String()
}

func drawLeaf(t *rapid.T, k Kind, o *treeOpts) *M {
	m := &M{K: k}
	switch k {
	case KBool:
		m.B = rapid.Bool().Draw(t, "bool")
	case KInt:
		if o.anyInts != nil {
			m.I = o.anyInts(t, "int")
		} else {
			m.I = drawInt(t, "int")
		}
	case KFloat:
		m.F = float64(drawFloat32(t, "f32"))
	case KDouble:
		m.F = drawDouble(t, "f64")
	case KString:
		if o.str != nil {
			m.S = o.str(t, "str")
		} else {
			m.S = drawStr(t, "str", o.big)
		}
	case KTime:
		if o.timeOf != nil {
			m.I = o.timeOf(t, "time")
		} else {
			m.I = drawTime(t, "time")
		}
	case KBin:
		m.Bin = drawBytes(t, "bin", o.big)
	case KExt:
		m.Bin = drawBytes(t, "ext", o.big)
		m.Ext = rapid.Byte().Draw(t, "extType")
	}
	return m
}

// drawTree draws a document; now and then it lies at the bottom of a chain of containers.
func drawTree(t *rapid.T, o *treeOpts) *M {
	m := drawTree1(t, o)
	if !(o.mid || o.wide) || o.depth < 2 || !chance(t, "deep", 48) {
		return m
	}
	for n := pick(t, "deepLevels", 8, 13, 17, 21, 33, 34, 52, 65, 67, 101, 130, 260); n > 0; n-- {
		k := pick(t, "deepKind", KObj, KArr)
		if n == 1 && len(o.root) > 0 {
			k = o.root[0]
		}
		p := &M{K: k}
		add := func(c *M) {
			if k == KObj {
				key := fmt.Sprintf("deep%d", len(p.Keys))
				if o.key == nil && chance(t, "deepKeyDrawn", 10) {
					key += drawKey(t, "deepKey")
				}
				p.Keys = append(p.Keys, key)
			}
			p.Kids = append(p.Kids, c)
		}
		side := rapid.IntRange(0, 5).Draw(t, "deepSide")
		if side == 0 {
			add(&M{K: KInt, I: int64(n)})
		}
		add(m)
		if side == 1 {
			add(&M{K: KString, S: "s"})
		}
		m = p
	}
	return m
}

func drawTree1(t *rapid.T, o *treeOpts) *M {
	if o.maxFan == 0 {
		o.maxFan = 5
	}
	if len(o.root) > 0 {
		k := o.root[rapid.IntRange(0, len(o.root)-1).Draw(t, "root")]
		return drawNode(t, o, o.depth, &k)
	}
	if o.depth > 0 && !chance(t, "leafRoot", 8) {
		k := pick(t, "root", KObj, KArr)
		return drawNode(t, o, o.depth, &k)
	}
	return drawNode(t, o, o.depth, nil)
}

func drawNode(t *rapid.T, o *treeOpts, depth int, force *Kind) *M {
	var k Kind
	if force != nil {
		k = *force
	} else {
		nl := len(o.kinds)
		n := nl
		if depth > 0 {
			n = nl + 4
		}
		i := rapid.IntRange(0, n-1).Draw(t, "kind")
		switch {
		case i < nl:
			k = o.kinds[i]
		case i < nl+2:
			k = KObj
		default:
			k = KArr
		}
	}
	if k != KObj && k != KArr {
		return drawLeaf(t, k, o)
	}
	m := &M{K: k}
	if o.wide && chance(t, "wide", 25) {
		n := pick(t, "fan", 14, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257)
		if o.big && (k == KArr || o.hugeObj) && chance(t, "veryWide", 40) {
			n = pick(t, "fanBig", 65534, 65535, 65536, 65537)
		}
		if k == KArr && chance(t, "fanThousands", 6) {
			n = pick(t, "fanThousand", 999, 1000, 1001, 1024, 1031, 2050, 4097, 9999, 10001)
		}
		lk := o.kinds[rapid.IntRange(0, len(o.kinds)-1).Draw(t, "fanKind")]
		var small []*M
		so := *o
		so.big = false
		for i := 0; i < 3; i++ {
			l := drawLeaf(t, lk, &so)
			if (len(l.S)+len(l.Bin))*n > 8<<20 {
				l = &M{K: l.K, S: "cut short", Bin: []byte{1, 2, 3}, Ext: l.Ext}
			}
			small = append(small, l)
		}
		for i := 0; i < n; i++ {
			if k == KObj {
				m.Keys = append(m.Keys, fmt.Sprintf("k%d", i))
			}
			m.Kids = append(m.Kids, small[i%3].clone())
		}
		return m
	}
	n := rapid.IntRange(0, o.maxFan).Draw(t, "n")
	if (o.mid || o.wide) && chance(t, "mid", 16) {
		// a few drawn members, the rest simple and distinguishable
		total := pick(t, "midFan", 9, 12, 16, 17, 18, 24, 31, 32, 33, 34, 40, 65, 70)
		if chance(t, "midMore", 6) {
			total = pick(t, "midFan2", 100, 129, 140, 200, 257, 300)
		}
		defer func() {
			for i := len(m.Kids); i < total; i++ {
				if k == KObj {
					m.Keys = append(m.Keys, fmt.Sprintf("mid%d", i))
				}
				m.Kids = append(m.Kids, &M{K: KInt, I: int64(1000 + i)})
			}
			rot := rapid.IntRange(0, total-1).Draw(t, "midRot")
			if n > 0 && rapid.Bool().Draw(t, "midHead") { // a drawn member comes first, or last
				rot %= n + 1
			}
			rotate := func(j int) int { return (j + rot) % total }
			kids, keys := make([]*M, total), make([]string, 0, total)
			for i := range kids {
				kids[i] = m.Kids[rotate(i)]
				if k == KObj {
					keys = append(keys, m.Keys[rotate(i)])
				}
			}
			m.Kids = kids
			if k == KObj {
				m.Keys = keys
			}
		}()
	}
	for i := 0; i < n; i++ {
		if k == KObj {
			var key string
			if o.key != nil {
				key = o.key(t, "key")
			} else {
				key = drawKey(t, "key")
			}
			if m.keyIndex(key) >= 0 {
				key = fmt.Sprintf("%s_%d", key, i)
				if m.keyIndex(key) >= 0 {
					continue
				}
			}
			if o.big && rare(t, "bigKey", 10) {
				key = fillStr(pick(t, "bigKeyLen", bigLens...), i)
			}
			m.Keys = append(m.Keys, key)
		}
		m.Kids = append(m.Kids, drawNode(t, o, depth-1, nil))
	}
	return m
}
