package harness

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C15: conversion rules, stated once per type pair on the model.
// The second result says whether the rule defines the pair.
// ---------------------------------------------------------------------------

func wantInt(m *M) (int64, bool) {
	switch m.K {
	case KBool:
		if m.B {
			return 1, true
		}
		return 0, true
	case KInt:
		return m.I, true
	case KFloat, KDouble:
		if math.Abs(m.F) < 9e18 {
			return int64(m.F), true
		}
		return 0, false
	case KString:
		if len(m.S) > 0 && strings.Trim(m.S, "0123456789") == "" || len(m.S) > 1 && m.S[0] == '-' && strings.Trim(m.S[1:], "0123456789") == "" {
			n, err := strconv.ParseInt(m.S, 10, 64)
			return n, err == nil
		}
		return 0, true
	case KTime:
		return 0, false
	}
	return 0, true
}

func wantDouble(m *M) (float64, bool) {
	switch m.K {
	case KBool:
		if m.B {
			return 1, true
		}
		return 0, true
	case KInt:
		return float64(m.I), true
	case KFloat, KDouble:
		return m.F, true
	case KString:
		if m.S != "" && strings.Trim(m.S, "0123456789.-+eE") == "" {
			f, err := strconv.ParseFloat(m.S, 64)
			if err != nil {
				f = 0
			}
			return f, true
		}
		l := strings.ToLower(m.S)
		if strings.Contains(l, "inf") || strings.Contains(l, "nan") || strings.Contains(l, "0x") || strings.Contains(l, "_") {
			return 0, false
		}
		return 0, true
	case KTime, KNaN, KInf:
		return 0, false
	}
	return 0, true
}

func wantBool(m *M) (bool, bool) {
	switch m.K {
	case KBool:
		return m.B, true
	case KInt:
		return m.I > 0, true
	case KFloat, KDouble:
		return m.F > 0, true
	case KString:
		return strings.EqualFold(m.S, "true"), true
	case KTime:
		return false, false
	}
	return false, true
}

func wantString(m *M) (string, bool) {
	switch m.K {
	case KBool:
		return strconv.FormatBool(m.B), true
	case KInt:
		return strconv.FormatInt(m.I, 10), true
	case KFloat, KDouble: // checked by value
		return "", false
	case KString:
		return m.S, true
	case KNull:
		return "null", true
	case KTime:
		return time.UnixMilli(m.I).In(time.Local).Format("2006-01-02 15:04:05"), true
	}
	return "", false
}

const (
	layDash  = "2006-01-02 15:04:05"
	laySlash = "2006/01/02 15:04:05"
)

// wantTime: the instant in ms. hit=false: the value denotes no time (zero time / -1).
func wantTime(m *M) (ms int64, hit, defined bool) {
	switch m.K {
	case KTime:
		return m.I, true, true
	case KString:
		for _, l := range []string{layDash, laySlash} {
			if x, err := time.ParseInLocation(l, m.S, time.Local); err == nil {
				return x.UnixMilli(), true, x.UnixMilli() >= minTimeMs && x.UnixMilli() <= maxTimeMs && wallIsUnique(x.UnixMilli())
			}
		}
		return 0, false, !strings.Contains(m.S, "T")
	case KNull, KBool, KObj, KArr, KBin, KExt, KNaN, KInf:
		return 0, false, true
	case KInt, KFloat, KDouble: // the Delphi day number of the local wall-clock time
		days := m.F
		if m.K == KInt {
			days = float64(m.I)
		}
		if !(days > -693000 && days < 2958000) {
			return 0, true, false
		}
		whole := math.Floor(days)
		wall := int64(whole)*86400000 + int64(math.Floor((days-whole)*86400000+0.5))
		at := time.Date(1899, 12, 30, 0, 0, 0, 0, time.Local)
		at = time.Date(1899, 12, 30+int(floorDiv(wall, 86400000)), 0, 0, 0, int(wall-floorDiv(wall, 86400000)*86400000)*1000000, at.Location())
		ms = at.UnixMilli()
		return ms, true, wallIsUnique(ms) && at.Format("15:04:05") == time.UnixMilli(wall).UTC().Format("15:04:05")
	}
	return 0, false, false
}

func wantDuration(m *M, def time.Duration) time.Duration {
	switch m.K {
	case KString:
		if d, err := time.ParseDuration(m.S); err == nil {
			return d
		}
	case KInt:
		return time.Duration(m.I)
	}
	return def
}

func drawReadable(t *rapid.T) *M {
	k := pick(t, "targetKind", KNull, KBool, KInt, KInt, KFloat, KDouble, KDouble, KString, KString, KString, KTime, KBin, KExt, KObj, KArr, KNaN, KInf)
	if k == KObj || k == KArr {
		return drawNode(t, &treeOpts{kinds: []Kind{KInt, KString}, maxFan: 2}, 1, &k)
	}
	if isNum(k) && chance(t, "dayNumber", 3) { // a day number within the calendar
		d := float64(rapid.IntRange(-690000, 2950000).Draw(t, "day"))
		if rapid.Bool().Draw(t, "recent") {
			d = float64(rapid.IntRange(-3, 60000).Draw(t, "day"))
		}
		switch k {
		case KInt:
			return &M{K: KInt, I: int64(d)}
		case KFloat:
			return &M{K: KFloat, F: float64(float32(d + float64(rapid.IntRange(0, 23).Draw(t, "hour"))/24))}
		}
		return &M{K: KDouble, F: d + float64(rapid.IntRange(0, 86399999).Draw(t, "msOfDay"))/86400000}
	}
	return drawLeaf(t, k, &treeOpts{str: func(t *rapid.T, l string) string {
		switch rapid.IntRange(0, 7).Draw(t, l+"Form") {
		case 0:
			return strconv.FormatInt(drawInt(t, l), 10)
		case 1:
			return strconv.FormatFloat(drawDouble(t, l), pick(t, l+"Fmt", byte('f'), 'e', 'g'), -1, 64)
		case 2:
			return pick(t, l, "true", "TRUE", "True", "false", "False", "t", "1", "0", "yes", "", " ", "-", "+", "--1", "-0", "007", "1 ", " 1", "1.", ".5", "1e3", "12abc", "null", "9223372036854775808", "99999999999999999999", "1.5.2", "e5", "１")
		case 3:
			return time.UnixMilli(drawTime(t, l)).In(time.Local).Format(pick(t, l+"Lay", layDash, laySlash))
		case 4:
			return pick(t, l, "2020-02-30 10:00:00", "2020-01-01", "10:00:00", "2020-1-1 1:1:1", "2020/01/01 10:00:60", "20200101")
		case 5:
			return time.Duration(drawInt(t, l)).String()
		case 6:
			return pick(t, l, "1s", "1h30m", "-2ms", "5", "1.5h", "1d", "us", "100ns")
		}
		return drawStr(t, l, false)
	}})
}

func TestC15(t *testing.T) {
	run(t, "scalars and containers of every type placed at random keys, indexes and paths of documents built by API calls or decoded from JSON, read as int, int64, float, double, string, bool, duration and date-time by value, name, index and path, plus reads of missing keys, out-of-range indexes, paths through scalars and nil receivers; oracle: one conversion rule per type pair on the model; non-trivial: the target's type differs from the type it is read as (every case reads all types), or is missing",
		func(t *rapid.T, c *Case) {
			m := drawReadable(t)
			// wrap it
			doc := m
			var path []string
			levels := rapid.IntRange(0, 3).Draw(t, "levels")
			if chance(t, "longPath", 24) {
				levels = pick(t, "longPathLen", 4, 5, 8, 9, 16, 17, 33, 65)
			}
			for i := levels; i > 0; i-- {
				sib := rapid.IntRange(0, 2).Draw(t, "siblings")
				if chance(t, "manySiblings", 6) {
					sib = pick(t, "siblings", 8, 9, 10, 12, 16, 30, 64, 101)
				}
				if rapid.Bool().Draw(t, "inObject") {
					key := drawKey(t, "wrapKey")
					o := &M{K: KObj}
					for j := 0; j < sib; j++ {
						k := fmt.Sprint("sib", j)
						if k == key {
							continue
						}
						o.Keys, o.Kids = append(o.Keys, k), append(o.Kids, &M{K: KInt, I: int64(j) + 1000})
					}
					o.Keys, o.Kids = append(o.Keys, key), append(o.Kids, doc)
					doc, path = o, append([]string{key}, path...)
				} else {
					o := &M{K: KArr}
					for j := 0; j < sib; j++ {
						o.Kids = append(o.Kids, &M{K: KInt, I: int64(j) + 1000})
					}
					o.Kids = append(o.Kids, doc)
					name := strconv.Itoa(sib)
					if chance(t, "zeros", 4) { // a name is an index in decimal, whatever zeros lead it
						name = pick(t, "zeroes", "0", "00", "000000", strings.Repeat("0", 25)) + name
					}
					doc, path = o, append([]string{name}, path...)
				}
			}
			var v *dx.DxValue
			if jsonable(doc) && rapid.Bool().Draw(t, "decoded") {
				var err error
				v, err = dx.NewValueFromJson(renderJSON(doc, drawRnd(t, "spelling")), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share"))
				if err != nil {
					t.Fatalf("valid JSON rejected: %v", err)
				}
				c.Class("decoded from JSON")
			} else {
				v = build(doc, drawRnd(t, "route"))
			}
			c.Class("target " + m.K.String())
			c.NonTrivial(true, doc.String(), fmt.Sprint(path))
			c.Sample(func() string { return fmt.Sprintf("%v of %s", path, doc) })
			doing("reads of %q in %s", path, doc)

			node := v.ValueByPath(path...)
			if node == nil {
				t.Fatalf("path %q not found in %s", path, doc)
			}
			if n := node.Type(); isNum(m.K) && n != vt(m) { // JSON does not say whether 1 is an int or a double
				o := observe(node, nil)
				if d := diff(m, o, cmpMode{numeric: true}); d != "" {
					t.Fatalf("decoded differently: %s", d)
				}
				m = o
			}
			var parent *dx.DxValue
			key, idx := "", -1
			if len(path) > 0 {
				parent = v.ValueByPath(path[:len(path)-1]...)
				key = path[len(path)-1]
				idx = parent.Count() - 1
			}
			bad := func(route string, got, want interface{}) {
				t.Fatalf("%s of %v %s gives %v, want %v (path %q)", route, m.K, m, got, want, path)
			}
			// the reads come in random order: reading must not depend on it
			order := drawRnd(t, "order")
			for k := 0; k < 9; k++ {
				switch (k + order.n(9)) % 9 {
				case 0:
					want, def := wantInt(m)
					if m.K == KTime { // as a number, a date-time is its Delphi day number
						want, def = int64(node.DateTime()), true
					}
					if !def {
						want = node.Int()
					}
					routes := map[string]int64{"Int": node.Int(), "IntByPath": v.IntByPath(-77, path...)}
					if parent != nil {
						routes["AsInt"] = int64(parent.AsInt(key, -77))
						routes["AsInt64"] = parent.AsInt64(key, -77)
						routes["IntByName"] = int64(parent.IntByName(key, -77))
						routes["IntByIndex"] = int64(parent.IntByIndex(idx, -77))
					}
					for r, got := range routes {
						if got != want {
							bad(r, got, want)
						}
					}
				case 1:
					want, def := wantDouble(m)
					if m.K == KTime {
						want, def = float64(node.DateTime()), true
					}
					if !def {
						want = node.Double()
					}
					routes := map[string]float64{"Double": node.Double(), "DoubleByPath": v.DoubleByPath(-77, path...)}
					if parent != nil {
						routes["AsDouble"] = parent.AsDouble(key, -77)
						routes["DoubleByName"] = parent.DoubleByName(key, -77)
						routes["DoubleByIndex"] = parent.DoubleByIndex(idx, -77)
					}
					for r, got := range routes {
						if !sameFloat(got, want) {
							bad(r, got, want)
						}
					}
				case 2:
					d, def := wantDouble(m)
					want := float32(d)
					if m.K == KInt {
						want = float32(m.I)
					}
					if m.K == KTime {
						want, def = float32(node.DateTime()), true
					}
					if !def {
						want = node.Float()
					}
					routes := map[string]float32{"Float": node.Float(), "FloatByPath": v.FloatByPath(-77, path...)}
					if parent != nil {
						routes["AsFloat"] = parent.AsFloat(key, -77)
						routes["FloatByName"] = parent.FloatByName(key, -77)
						routes["FloatByIndex"] = parent.FloatByIndex(idx, -77)
					}
					for r, got := range routes {
						if !sameFloat(float64(got), float64(want)) {
							bad(r, got, want)
						}
					}
				case 3:
					want, def := wantBool(m)
					if !def {
						want = node.Bool()
					}
					routes := map[string]bool{"Bool": node.Bool(), "BoolByPath": v.BoolByPath(!want, path...)}
					if parent != nil {
						routes["AsBool"] = parent.AsBool(key, !want)
						routes["BoolByName"] = parent.BoolByName(key, !want)
						routes["BoolByIndex"] = parent.BoolByIndex(idx, !want)
					}
					for r, got := range routes {
						if got != want {
							bad(r, got, want)
						}
					}
				case 4:
					want, def := wantString(m)
					if !def {
						want = node.String()
					}
					routes := map[string]string{"String": node.String(), "StringByPath": v.StringByPath("?def", path...)}
					if parent != nil {
						routes["AsString"] = parent.AsString(key, "?def")
						routes["StringByName"] = parent.StringByName(key, "?def")
						routes["StringByIndex"] = parent.StringByIndex(idx, "?def")
					}
					for r, got := range routes {
						if got != want {
							bad(r, got, want)
						}
					}
					if m.K == KFloat || m.K == KDouble { // numbers print exactly
						if f, err := strconv.ParseFloat(want, 64); err != nil || f != m.F {
							bad("String", want, m.F)
						}
					}
				case 5:
					def := time.Duration(-77)
					want := wantDuration(m, def)
					routes := map[string]time.Duration{"Duration": node.Duration(def), "DurationByPath": v.DurationByPath(def, path...)}
					if parent != nil {
						routes["AsDuration"] = parent.AsDuration(def, key)
						routes["DurationByName"] = parent.DurationByName(def, key)
					}
					for r, got := range routes {
						if got != want {
							bad(r, got, want)
						}
					}
				case 6:
					ms, hit, def := wantTime(m)
					tdef := time.UnixMilli(12345)
					routes := map[string]time.Time{"GoTime": node.GoTime(), "GoTimeByPath": v.GoTimeByPath(tdef, path...)}
					if parent != nil {
						routes["TimeByName"] = parent.TimeByName(key, tdef)
					}
					for r, got := range routes {
						switch {
						case !def:
							if !got.Equal(node.GoTime()) {
								bad(r, got, node.GoTime())
							}
						case hit:
							if roundMs(got) != ms {
								bad(r, got, time.UnixMilli(ms))
							}
						default:
							if !got.IsZero() {
								bad(r, got, "the zero time")
							}
						}
					}
				case 7:
					ms, hit, def := wantTime(m)
					want := node.DateTime()
					if isNum(m.K) {
						days := m.F
						if m.K == KInt {
							days = float64(m.I)
						}
						if !sameFloat(float64(want), days) {
							bad("DateTime", want, days)
						}
						def = false
					}
					if def && hit {
						_, off := time.UnixMilli(ms).In(time.Local).Zone()
						days := float64(ms+int64(off)*1000)/86400000 + 25569
						if math.Abs(days-float64(want)) > 2e-9*math.Max(1, math.Abs(days)/50000) {
							bad("DateTime", want, days)
						}
					}
					if def && hit != (want != -1) {
						bad("DateTime", want, hit)
					}
					routes := map[string]DxCommonLib.TDateTime{"DateTimeByPath": v.DateTimeByPath(-77, path...)}
					if parent != nil {
						routes["AsDateTime"] = parent.AsDateTime(key, -77)
					}
					for r, got := range routes {
						if !sameFloat(float64(got), float64(want)) {
							bad(r, got, want)
						}
					}
				case 8: // nothing there
					var at *dx.DxValue
					var p []string
					switch rapid.IntRange(0, 3).Draw(t, "missing") {
					case 0:
						at, p = v, append(append([]string{}, path...), "no such", "key")
					case 1:
						at, p = node, []string{"no such key"}
					case 2:
						at, p = v, append(append([]string{}, path...), "99")
						if m.K == KObj && m.keyIndex("99") >= 0 {
							continue
						}
					case 3:
						at, p = nil, []string{"x"}
					}
					last := p[len(p)-1]
					if at != nil {
						at = at.ValueByPath(p[:len(p)-1]...)
					}
					if got := at.ValueByPath(last); got != nil {
						bad("ValueByPath", got, nil)
					}
					n, s, d, f, yes := drawInt(t, "defInt"), drawStr(t, "defStr", false), drawDouble(t, "defDouble"), drawFloat32(t, "defFloat"), rapid.Bool().Draw(t, "defBool")
					at2, dur := time.Unix(rapid.Int64Range(-1<<36, 1<<36).Draw(t, "defSec"), int64(rapid.IntRange(0, 999999999).Draw(t, "defNano"))), time.Duration(n)
					if at.AsInt(last, int(n)) != int(n) || at.AsInt64(last, n) != n || at.AsBool(last, yes) != yes || at.AsString(last, s) != s ||
						at.AsDouble(last, d) != d || at.AsFloat(last, f) != f || float64(at.AsDateTime(last, DxCommonLib.TDateTime(d))) != d ||
						at.AsDuration(dur, last) != dur || at.IntByName(last, int(n)) != int(n) || at.StringByName(last, s) != s ||
						at.BoolByName(last, yes) != yes || at.DoubleByName(last, d) != d || at.FloatByName(last, f) != f ||
						!at.TimeByName(last, at2).Equal(at2) || at.DurationByName(dur, last) != dur {
						bad("a read of "+strconv.Quote(last), "something", fmt.Sprint("the default, one of ", n, d, f, at2, strconv.Quote(s)))
					}
					if at.IntByPath(n, last) != n || at.StringByPath(s, last) != s || at.BoolByPath(yes, last) != yes || at.DoubleByPath(d, last) != d ||
						at.FloatByPath(f, last) != f || float64(at.DateTimeByPath(DxCommonLib.TDateTime(d), last)) != d || !at.GoTimeByPath(at2, last).Equal(at2) || at.DurationByPath(dur, last) != dur {
						bad("a read of the path "+strconv.Quote(last), "something", fmt.Sprint("the default, one of ", n, d, f, at2, strconv.Quote(s)))
					}
					for _, i := range []int{-1, -2, -node.Count(), -node.Count() - 1, 1 - node.Count() - 1<<32, node.Count(), node.Count() + 1, node.Count() + 5, node.Count() + 256, node.Count() + 65536, math.MaxInt32, math.MinInt32, 1 << 32, math.MaxInt64, math.MinInt64} {
						if i >= 0 && i < node.Count() {
							continue
						}
						if node.IntByIndex(i, int(n)) != int(n) || node.StringByIndex(i, s) != s || node.BoolByIndex(i, yes) != yes || node.FloatByIndex(i, f) != f || node.DoubleByIndex(i, d) != d || node.ValueByIndex(i) != nil || node.KeyNameByIndex(i) != "" {
							bad(fmt.Sprint("a read of index ", i), "something", "the default")
						}
					}
				}
			}
		})
}

// ---------------------------------------------------------------------------
// C17: Equal
// ---------------------------------------------------------------------------

// sameDoc: structural equality of models, numbers by exact value.
func sameDoc(a, b *M) bool {
	if isNum(a.K) && isNum(b.K) {
		switch {
		case a.K == KInt && b.K == KInt:
			return a.I == b.I
		case a.K == KInt:
			return intEqFloat(a.I, b.F)
		case b.K == KInt:
			return intEqFloat(b.I, a.F)
		}
		return a.F == b.F || math.IsNaN(a.F) && math.IsNaN(b.F)
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KBool:
		return a.B == b.B
	case KTime:
		return a.I == b.I
	case KString:
		return a.S == b.S
	case KBin, KExt:
		return a.Ext == b.Ext && string(a.Bin) == string(b.Bin)
	case KObj:
		if len(a.Keys) != len(b.Keys) {
			return false
		}
		for i := range a.Keys {
			if a.Keys[i] != b.Keys[i] {
				return false
			}
		}
	}
	if len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !sameDoc(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// nudge changes one node of m a little (possibly into something equal).
// changeOne replaces one ASCII character of s, if it has any, so that neither the length nor the rest changes.
func changeOne(t *rapid.T, s string) string {
	if len(s) == 0 {
		return s
	}
	at := rapid.IntRange(0, len(s)-1).Draw(t, "changeAt")
	for i := 0; i < len(s); i++ {
		j := (at + i) % len(s)
		if c := s[j]; c < 0x80 {
			n := byte('a')
			if c == n {
				n = 'b'
			}
			return s[:j] + string(n) + s[j+1:]
		}
	}
	return s
}

func nudge(t *rapid.T, m *M) string {
	var all []*M
	m.walk(func(n *M) { all = append(all, n) })
	n := all[rapid.IntRange(0, len(all)-1).Draw(t, "nudgeAt")]
	was := n.String()
	if (isNum(n.K) || n.K == KTime) && chance(t, "dayNumber", 4) { // the same day number as another type
		if n.K == KTime {
			d := float64(build(n, drawRnd(t, "dayRoute")).DateTime())
			*n = *pick(t, "day", &M{K: KDouble, F: d}, &M{K: KDouble, F: d}, &M{K: KInt, I: int64(d)}, &M{K: KFloat, F: float64(float32(d))}, &M{K: KInt, I: n.I}, &M{K: KDouble, F: float64(n.I)})
		} else {
			d := n.F
			if n.K == KInt {
				d = float64(n.I)
			}
			if math.Abs(d) > 500000 {
				d = 43000
			}
			*n = M{K: KTime, I: unambiguous(int64((d - 25569) * 86400000))}
		}
		return was + " => the same day as " + n.K.String()
	}
	if chance(t, "nudgeKind", 5) {
		k := pick(t, "newKind", KNull, KBool, KInt, KDouble, KFloat, KString, KBin, KTime, KObj, KArr)
		*n = M{K: k}
		return was + " => empty " + k.String()
	}
	switch n.K {
	case KNull:
		*n = *pick(t, "null", &M{K: KString, S: "null"}, &M{K: KString}, &M{K: KInt}, &M{K: KBool}, &M{K: KObj})
	case KBool:
		*n = *pick(t, "bool", &M{K: KBool, B: !n.B}, &M{K: KInt, I: 1}, &M{K: KString, S: fmt.Sprint(n.B)}, &M{K: KNull})
	case KInt:
		switch rapid.IntRange(0, 5).Draw(t, "int") {
		case 0:
			n.I++
		case 1:
			n.I = -n.I
		case 2: // the nearest double: equal only if exact
			*n = M{K: KDouble, F: float64(n.I)}
		case 3:
			*n = M{K: KString, S: fmt.Sprint(n.I)}
		case 4:
			*n = M{K: KFloat, F: float64(float32(n.I))}
		case 5:
			n.I ^= 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
		}
	case KFloat, KDouble:
		switch rapid.IntRange(0, 6).Draw(t, "float") {
		case 5:
			n.K, n.F = KDouble, math.NaN()
		case 6:
			n.K, n.F = KDouble, math.Inf(1-2*rapid.IntRange(0, 1).Draw(t, "sign"))
		case 0:
			n.F = math.Nextafter(n.F, 1e300)
			n.K = KDouble
		case 1:
			n.F = -n.F
		case 2:
			n.K, n.F = KFloat, float64(float32(n.F))
			if math.IsInf(n.F, 0) {
				n.F = 1
			}
		case 3:
			n.K = KDouble
		case 4:
			if math.Abs(n.F) < 9e18 {
				*n = M{K: KInt, I: int64(n.F)}
			}
		}
	case KString:
		switch rapid.IntRange(0, 6).Draw(t, "string") {
		case 5, 6: // one character in the middle, the length unchanged
			n.S = changeOne(t, n.S)
		case 0:
			n.S += " "
		case 1:
			n.S = strings.ToUpper(n.S)
		case 2:
			n.S = strings.ToLower(n.S)
		case 3:
			n.S = strings.TrimRight(n.S, "\\\"")
		case 4:
			if len(n.S) > 0 {
				n.S = n.S[:len(n.S)-1]
				n.S = strings.ToValidUTF8(n.S, "")
			}
		}
		if dateish(n.S) {
			n.S = "x" + n.S
		}
	case KTime:
		n.I = unambiguous(n.I + int64(pick(t, "time", 1, -1, 1000, 86400000)))
	case KBin, KExt:
		switch rapid.IntRange(0, 3).Draw(t, "bin") {
		case 0:
			n.Bin = append(append([]byte(nil), n.Bin...), 0)
		case 1:
			if len(n.Bin) > 0 {
				n.Bin = append([]byte(nil), n.Bin...)
				n.Bin[rapid.IntRange(0, len(n.Bin)-1).Draw(t, "byte")] ^= 1
			}
		case 2:
			if n.K == KExt {
				n.Ext ^= 1
			}
		case 3:
			if n.K == KExt {
				n.K, n.Ext = KBin, 0
			} else {
				n.K = KExt
			}
		}
	case KObj, KArr:
		switch rapid.IntRange(0, 4).Draw(t, "container") {
		case 0:
			n.Kids = append(n.Kids, &M{K: KNull})
			if n.K == KObj {
				n.Keys = append(n.Keys, "nudged key")
			}
		case 1:
			if len(n.Kids) > 0 {
				n.removeAt(len(n.Kids) - 1)
			}
		case 2:
			if l := len(n.Kids); l > 1 { // swap neighbours
				i := rapid.IntRange(0, l-2).Draw(t, "swap")
				n.Kids[i], n.Kids[i+1] = n.Kids[i+1], n.Kids[i]
				if n.K == KObj {
					n.Keys[i], n.Keys[i+1] = n.Keys[i+1], n.Keys[i]
				}
			}
		case 3:
			if n.K == KObj && len(n.Keys) > 0 {
				i := rapid.IntRange(0, len(n.Keys)-1).Draw(t, "rename")
				k := pick(t, "renameHow", strings.ToUpper(n.Keys[i]), strings.ToLower(n.Keys[i]), n.Keys[i]+"_", "\\"+n.Keys[i], changeOne(t, n.Keys[i]))
				if n.keyIndex(k) < 0 {
					n.Keys[i] = k
				}
			}
		case 4:
			if len(n.Kids) > 0 {
				n.removeAt(0)
			}
		}
	}
	return was + " => " + n.String()
}

func TestC17(t *testing.T) {
	run(t, "pairs of documents that are the same, a small change apart (neighbouring numbers, int against double, case or length of strings, key order and names, extra or missing elements, other types, binary bytes, extension types, date-times) or unrelated, each built by API calls, decoded from JSON/MsgPack/BSON, cloned, or written over former content, read before or not, plus nil; oracle: structural equality of the models, numbers by exact value; non-trivial: the documents are nested or differ by a small change",
		func(t *rapid.T, c *Case) {
			kinds := allKinds
			src := rapid.IntRange(0, 3).Draw(t, "family")
			o := &treeOpts{kinds: kinds, depth: 3, maxFan: 4, mid: true}
			formats := ""
			switch src {
			case 1:
				o.kinds, formats = jsonKinds, "j"
			case 2:
				o.kinds, formats = mpKinds, "m"
			case 3:
				o.kinds, formats = []Kind{KNull, KBool, KInt, KDouble, KString, KTime, KBin}, "b"
				o.root, o.key = []Kind{KObj}, bsonKey
			}
			m1 := drawTree(t, o)
			fixExt(m1)
			m2 := m1.clone()
			rel := rapid.IntRange(0, 5).Draw(t, "relation")
			what := "same"
			switch {
			case rel >= 2:
				what = nudge(t, m2)
				if src == 1 && !jsonable(m2) || src == 3 && hasKind(m2, KFloat, KExt) || src == 3 && m2.K != KObj {
					m2, what = m1.clone(), "same"
				}
				fixExt(m2)
			case rel == 1:
				m2 = drawTree(t, o)
				fixExt(m2)
				what = "unrelated"
			}
			if src == 1 { // JSON text does not tell 1.0 from 1: compare what is read
			}
			v1, v2 := equalSource(t, m1, formats), equalSource(t, m2, formats)
			want := sameDoc(observe(v1.Clone(false), nil), observe(v2.Clone(false), nil))
			if src != 1 {
				if w := sameDoc(m1, m2); w != want {
					t.Fatalf("documents do not show what they were built from: %s / %s", m1, m2)
				}
			}
			doing("Equal of %s and %s", m1, m2)
			if got := v1.Equal(v2); got != want {
				t.Fatalf("Equal gives %v, want %v (%s)\n%s\n%s", got, want, what, m1, m2)
			}
			if got := v2.Equal(v1); got != want {
				t.Fatalf("Equal is not symmetric: %v, want %v (%s)\n%s\n%s", got, want, what, m1, m2)
			}
			if !v1.Equal(v1) {
				t.Fatalf("a value is not Equal to itself: %s", m1)
			}
			if v1.Equal(nil) || (*dx.DxValue)(nil).Equal(v1) || !(*dx.DxValue)(nil).Equal(nil) {
				t.Fatalf("Equal with nil")
			}
			if d := diff(m1, observe(v1, nil), cmpMode{numeric: true}); d != "" {
				t.Fatalf("Equal changed its receiver: %s", d)
			}
			if d := diff(m2, observe(v2, nil), cmpMode{numeric: true}); d != "" {
				t.Fatalf("Equal changed its argument: %s", d)
			}
			c.ClassIf(want, "equal")
			c.ClassIf(!want, "different")
			c.NonTrivial(rel >= 2 || m1.depth() >= 3, m1.String(), m2.String())
			c.Sample(func() string { return what + "\n" + m1.String() + "\n" + m2.String() })
		})
}

func hasKind(m *M, ks ...Kind) bool {
	found := false
	m.walk(func(n *M) {
		for _, k := range ks {
			found = found || n.K == k
		}
	})
	return found
}

// equalSource: m from any source, possibly over former content, possibly read before.
func equalSource(t *rapid.T, m *M, formats string) *dx.DxValue {
	var v *dx.DxValue
	if rapid.IntRange(0, 3).Draw(t, "overUsed") == 3 {
		v = usedValue(t)
		tp := vt(m)
		v.Reset(tp)
		fill(v, m, drawRnd(t, "route"))
	} else {
		v = anySource(t, m, formats)
	}
	switch rapid.IntRange(0, 4).Draw(t, "after") {
	case 3:
		v = v.Clone(rapid.Bool().Draw(t, "cloneCached"))
	case 4:
		observe(v, drawRnd(t, "look"))
	}
	return v
}
