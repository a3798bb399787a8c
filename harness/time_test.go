package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var jsonDate = regexp.MustCompile(`^(?:/Date\((-?\d+)(?:[+-]\d{4})?\)/|Date\((-?\d+)(?:[+-]\d{4})?\))$`)

// setTimeSomehow makes a document holding the instant tm and returns the document and the path to it.
func setTimeSomehow(t *rapid.T, tm time.Time) (*dx.DxValue, []string, string) {
	var v *dx.DxValue
	if rapid.Bool().Draw(t, "cachedDoc") {
		v = dx.NewCacheValue(dx.VT_Object)
	} else {
		v = dx.NewObject(false)
	}
	// former content of the slot
	former := rapid.IntRange(0, 4).Draw(t, "former")
	pre := func(o *dx.DxValue, key string) {
		switch former {
		case 1:
			o.SetKeyString(key, "old")
		case 2:
			o.SetKeyDouble(key, 2.5)
		case 3:
			o.SetKeyInt(key, 99)
		case 4:
			o.SetKeyTime(key, time.UnixMilli(86400000))
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "setBy") {
	case 0:
		pre(v, "t")
		v.SetKeyTime("t", tm)
		return v, []string{"t"}, "SetKeyTime"
	case 1:
		pre(v, "t")
		v.SetKey("t", dx.VT_DateTime).SetTime(tm)
		return v, []string{"t"}, "SetKey+SetTime"
	case 2:
		v.SetKey("a", dx.VT_Array).SetIndexTime(0, tm)
		return v, []string{"a", "0"}, "SetIndexTime"
	case 3:
		pre(v, "t")
		v.SetKeyvalue("t", tm, nil)
		return v, []string{"t"}, "SetKeyvalue(time)"
	case 4:
		pre(v, "t")
		v.SetKeyvalue("t", &tm, nil)
		return v, []string{"t"}, "SetKeyvalue(*time)"
	case 5:
		v.SetKey("a", dx.VT_Array).SetIndexvalue(0, tm, nil)
		return v, []string{"a", "0"}, "SetIndexvalue(time)"
	case 6:
		pre(v, "t")
		n := v.SetKey("t", dx.VT_String)
		n.SetTime(tm)
		return v, []string{"t"}, "SetTime on a string"
	case 7:
		pre(v, "t")
		n := v.SetKey("t", dx.VT_Object)
		n.SetValue(tm)
		return v, []string{"t"}, "SetValue"
	case 8:
		w := dx.NewValue(dx.VT_DateTime)
		w.SetTime(tm)
		pre(v, "t")
		v.SetKey("t", dx.VT_Int).SetDelphiTime(w.DateTime())
		return v, []string{"t"}, "SetDelphiTime(DateTime())"
	}
	v.SetKeyvalue("s", struct {
		When time.Time
		L    []time.Time
	}{tm, []time.Time{tm}}, nil)
	if rapid.Bool().Draw(t, "list") {
		return v, []string{"s", "L", "0"}, "struct field list"
	}
	return v, []string{"s", "When"}, "struct field"
}

func TestC24(t *testing.T) {
	run(t, "instants of the years 1..9999 (day, second, epoch and DST edges included; ambiguous or skipped local wall-clock times excluded), given in UTC, the local zone or a fixed zone, set by every time setter over any former content, then taken through 0..4 steps of clone, copy, escaped JSON, MsgPack, BSON (whole or bare value, by fresh decode or load into a used value, written by the library or by another producer), Delphi number and Go struct, finally read by every getter, printed and written as text, in eight local time zones; oracle: package time; non-trivial: the instant has a sub-second part, lies before 1970 or after 2038, within a day of a zone switch, or crossed at least one encoding",
		func(t *rapid.T, c *Case) {
			ms := drawTime(t, "ms")
			tm := time.UnixMilli(ms)
			switch rapid.IntRange(0, 3).Draw(t, "zone") {
			case 1:
				tm = tm.UTC()
			case 2:
				tm = tm.In(time.FixedZone("x", rapid.IntRange(-14*60, 14*60).Draw(t, "offset")*60))
			case 3:
				tm = tm.In(time.Local)
			}
			v, path, by := setTimeSomehow(t, tm)
			log := by
			doing("%s %v", log, tm)
			n := rapid.IntRange(0, 4).Draw(t, "steps")
			crossed := false
			for i := 0; i < n; i++ {
				share, cached := rapid.Bool().Draw(t, "share"), rapid.Bool().Draw(t, "cached")
				var err error
				decode := func(f int, b []byte) {
					crossed = true
					log += ", " + formats[f].name
					if rapid.Bool().Draw(t, "load") {
						log += " load"
						w := usedValue(t)
						err = formats[f].load(w, b, share)
						v = w
					} else {
						v, err = formats[f].fresh(b, cached, share)
					}
				}
				wrap := func(w *dx.DxValue) {
					v = dx.NewObject(false)
					v.SetKeyValue("w", w)
					path = []string{"w"}
				}
				switch s := rapid.IntRange(0, 12).Draw(t, "step"); s {
				case 12: // one level deeper
					log += ", into a list"
					a := dx.NewArray(cached)
					a.SetIndexValue(0, v)
					v, path = a, append([]string{"0"}, path...)
				case 11: // Marshal, whole document or bare value
					log += ", Marshal"
					w := v
					if rapid.Bool().Draw(t, "bareMarshal") {
						w = v.ValueByPath(path...)
					}
					b, merr := dx.Marshal(w)
					if merr == nil && rapid.Bool().Draw(t, "byValue") {
						b, merr = dx.Marshal(*w)
					}
					u := usedValue(t)
					if u.ReadOnly() {
						u = dx.NewObject(cached)
					}
					if err = merr; err == nil {
						err = dx.Unmarshal(b, u)
					}
					crossed = true
					if w != v {
						wrap(u)
					} else {
						v = u
					}
				case 10: // a JSON date in any of its spellings; an offset does not move the instant
					log += ", foreign"
					d := fmt.Sprintf(pick(t, "spelling", "Date(%d%s)", "/Date(%d%s)/"), ms, pick(t, "jsonOffset", "", "", "+0000", "+0800", "-0500", "+1345", "-1130"))
					log += " " + d
					if rapid.Bool().Draw(t, "bareDate") {
						decode(0, []byte(`"`+d+`"`))
						if err == nil {
							wrap(v)
						}
					} else {
						decode(0, []byte(`{"x":["`+d+`"],"y":{"w":"`+d+`"}}`))
						path = pick(t, "where", []string{"x", "0"}, []string{"y", "w"})
					}
				case 7: // the bare value as a whole document
					log += ", bare"
					node := v.ValueByPath(path...)
					if rapid.Bool().Draw(t, "bareJson") {
						decode(0, node.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil))
					} else {
						decode(1, node.ToMsgPack(nil))
					}
					if err == nil {
						wrap(v)
					}
				case 8, 9: // written by another producer, in any of the equivalent forms
					log += ", foreign"
					if s == 8 {
						decode(1, mpEncode(nil, &M{K: KTime, I: ms}, drawRnd(t, "form")))
						if err == nil {
							wrap(v)
						}
					} else {
						decode(2, bsonEncode(nil, &M{K: KObj, Keys: []string{"w"}, Kids: []*M{{K: KTime, I: ms}}}, drawRnd(t, "form")))
						path = []string{"w"}
					}
				case 0:
					v = v.Clone(cached)
					log += ", clone"
				case 1:
					w := usedValue(t)
					w.CopyFrom(v, nil)
					v = w
					log += ", copy"
				case 2:
					b := v.ToJson(rapid.Bool().Draw(t, "formatted"), pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape), true, nil)
					var x interface{}
					if e := json.Unmarshal(b, &x); e != nil {
						t.Fatalf("%s %v: JSON output is invalid: %v %q", log, tm, e, b)
					}
					g := jsonDate.FindStringSubmatch(fmt.Sprint(atPath(x, path)))
					if g == nil {
						t.Fatalf("%s %v: escaped JSON date is %q", log, tm, b)
					}
					if w, _ := strconv.ParseInt(g[1]+g[2], 10, 64); w != ms {
						t.Fatalf("%s %v: escaped JSON date %q is not %d", log, tm, b, ms)
					}
					decode(0, b)
				case 3:
					decode(1, v.ToMsgPack(nil))
				case 4:
					decode(2, v.ToBson(nil))
				case 5:
					w := dx.NewValue(dx.VT_DateTime)
					w.SetDelphiTime(v.ValueByPath(path...).DateTime())
					v = dx.NewObject(cached)
					v.SetKeyValue("d", w)
					path = []string{"d"}
					log += ", Delphi number"
				case 6:
					var x time.Time
					if !v.ValueByPath(path...).ToStdValue(&x, false) {
						t.Fatalf("%s %v: ToStdValue(*time.Time) refused", log, tm)
					}
					v = dx.NewObject(cached)
					v.SetKeyvalue("g", x, nil)
					path = []string{"g"}
					log += ", time.Time"
				}
				if err != nil {
					t.Fatalf("%s %v: %v", log, tm, err)
				}
			}
			node := v.ValueByPath(path...)
			if node == nil {
				t.Fatalf("%s %v: the value is gone: %s", log, tm, v)
			}
			if node.Type() != dx.VT_DateTime {
				t.Fatalf("%s %v: the value became a %v", log, tm, node.Type())
			}
			parent := v.ValueByPath(path[:len(path)-1]...)
			last := path[len(path)-1]
			for r, got := range map[string]time.Time{"GoTime": node.GoTime(), "GoTimeByPath": v.GoTimeByPath(time.Time{}, path...), "TimeByName": parent.TimeByName(last, time.Time{})} {
				if roundMs(got) != ms {
					t.Fatalf("%s %v: %s gives %v (local zone %v)", log, tm, r, got, time.Local)
				}
			}
			if parent.AsDateTime(last, -5) != node.DateTime() || v.DateTimeByPath(-5, path...) != node.DateTime() {
				t.Fatalf("%s %v: DateTime routes disagree", log, tm)
			}
			local := tm.In(time.Local)
			if got, want := node.String(), local.Format(layDash); got != want {
				t.Fatalf("%s %v: prints %q, want %q", log, tm, got, want)
			}
			// plain JSON text: to the second
			b := v.ToJson(false, dx.JSE_OnlyAnsiChar, false, nil)
			w, err := dx.NewValueFromJson(b, false, false)
			if err != nil {
				t.Fatalf("%s %v: plain JSON %q rejected: %v", log, tm, b, err)
			}
			if got := w.ValueByPath(path...).GoTime(); got.Unix() != floorDiv(ms, 1000) || !bytes.Contains(b, []byte(local.Format("15:04:05"))) {
				t.Fatalf("%s %v: plain JSON text %q reads as %v", log, tm, b, got)
			}
			// the same instant given in another zone is the same value
			o := dx.NewValue(dx.VT_DateTime)
			o.SetTime(tm.In(time.FixedZone("y", 3600*5)))
			if !o.Equal(node) || !node.Equal(o) {
				t.Fatalf("%s %v: not Equal to the same instant given in another zone", log, tm)
			}
			_, off := local.Zone()
			_, o1 := local.Add(-24 * time.Hour).Zone()
			_, o2 := local.Add(24 * time.Hour).Zone()
			near := off != o1 || off != o2
			c.Class("set by " + by)
			c.ClassIf(near, "within a day of a zone switch")
			c.ClassIf(ms%1000 != 0, "sub-second")
			c.ClassIf(ms < 0, "before 1970")
			c.ClassIf(crossed, "through an encoding")
			c.NonTrivial(ms%1000 != 0 || ms < 0 || ms >= 1<<31*1000 || near || crossed, log, ms)
			c.Sample(func() string { return log + " " + tm.Format(time.RFC3339Nano) + " in " + time.Local.String() })
		})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func atPath(x interface{}, path []string) interface{} {
	for _, p := range path {
		switch y := x.(type) {
		case map[string]interface{}:
			x = y[p]
		case []interface{}:
			i, _ := strconv.Atoi(p)
			if i >= len(y) {
				return nil
			}
			x = y[i]
		default:
			return nil
		}
	}
	return x
}
