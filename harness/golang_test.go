package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Random Go types and values, and what document a Go value describes.
// ---------------------------------------------------------------------------

type (
	myBool   bool
	myInt    int
	myI8     int8
	myI16    int16
	myI32    int32
	myI64    int64
	myUint   uint
	myU8     uint8
	myU16    uint16
	myU32    uint32
	myU64    uint64
	myF32    float32
	myF64    float64
	myStr    string
	myInts   []int
	myStrs   []string
	myMap    map[string]int
	myAnyMap map[string]interface{}
	myByte   byte
	myArr    [3]int16
)

type inner struct {
	X int
	S string
}

type node struct {
	Name  string
	Next  *node
	Items []inner
	ByKey map[string]*inner
	When  time.Time
	Data  []byte
	Any   interface{}
}

type embeds struct {
	Inner2
	Last bool
}

// exported on purpose: an embedded field is described under its type's name
type Inner2 struct {
	A int32
	B []float64
}

// coded: a type with its own conversions.
type coded struct{ N int64 }

func (c coded) EncodeToDxValue(dest *dx.DxValue)    { dest.SetString(fmt.Sprintf("coded:%d", c.N)) }
func (c *coded) DecodeFromDxValue(from *dx.DxValue) { fmt.Sscanf(from.String(), "coded:%d", &c.N) }

// registered: a type whose decoding is registered with RegisterTypeMapFunc.
type registered struct{ Hi, Lo int32 }

func init() {
	dx.RegisterTypeMapFunc(reflect.TypeOf(registered{}), func(f reflect.Value, v *dx.DxValue) {
		f.Set(reflect.ValueOf(registered{int32(v.IntByName("Hi", -1)), int32(v.IntByName("Lo", -1))}))
	})
}

var (
	anyType   = reflect.TypeOf((*interface{})(nil)).Elem()
	timeType  = reflect.TypeOf(time.Time{})
	bytesType = reflect.TypeOf([]byte(nil))
	codedType = reflect.TypeOf(coded{})
	docType   = reflect.TypeOf((*dx.DxValue)(nil))
	strType   = reflect.TypeOf("")
)

func typesOf(xs ...interface{}) (r []reflect.Type) {
	for _, x := range xs {
		r = append(r, reflect.TypeOf(x))
	}
	return
}

var goScalars = append(typesOf(false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0),
	float32(0), float64(0), "", time.Time{}, []byte(nil), myBool(false), myInt(0), myI8(0), myI16(0), myI32(0), myI64(0),
	myUint(0), myU8(0), myU16(0), myU32(0), myU64(0), myF32(0), myF64(0), myStr("")), anyType)

var goNamed = typesOf(myInts(nil), myStrs(nil), myMap(nil), myAnyMap(nil), []myByte(nil), myArr{}, [4]byte{}, inner{}, node{}, embeds{}, registered{},
	map[string]interface{}(nil), map[string]string(nil), map[string]int(nil), []interface{}(nil), []string(nil), (*coded)(nil))

var fieldNames = []string{"A", "B", "C", "Name", "Id", "Value", "Items", "Map", "NAME", "X1", "Ñame", "Long_field_name", "Type"}

// drawRootType: mostly compound.
func drawRootType(t *rapid.T) reflect.Type {
	tp := drawType(t, 4)
	if tp.Kind() < reflect.Array && rapid.IntRange(0, 3).Draw(t, "wrapScalar") > 0 {
		switch rapid.IntRange(0, 3).Draw(t, "wrap") {
		case 0:
			return reflect.SliceOf(tp)
		case 1:
			return reflect.MapOf(strType, tp)
		case 2:
			return reflect.StructOf([]reflect.StructField{{Name: "First", Type: tp}, {Name: "Second", Type: drawType(t, 3)}})
		}
		return goNamed[rapid.IntRange(0, len(goNamed)-1).Draw(t, "named")]
	}
	return tp
}

func drawType(t *rapid.T, depth int) reflect.Type {
	max := 12
	if depth <= 0 {
		max = 2
	}
	switch rapid.IntRange(0, max).Draw(t, "goType") {
	case 0, 1, 2, 3:
		return goScalars[rapid.IntRange(0, len(goScalars)-1).Draw(t, "scalar")]
	case 4:
		return goNamed[rapid.IntRange(0, len(goNamed)-1).Draw(t, "named")]
	case 5, 6:
		return reflect.PtrTo(drawType(t, depth-1))
	case 7:
		return reflect.SliceOf(drawType(t, depth-1))
	case 8:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "len"), drawType(t, depth-1))
	case 9:
		return reflect.MapOf(pick(t, "keyType", strType, reflect.TypeOf(myStr(""))), drawType(t, depth-1))
	}
	n := rapid.IntRange(0, 5).Draw(t, "fields")
	off := rapid.IntRange(0, len(fieldNames)-1).Draw(t, "names")
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, reflect.StructField{Name: fieldNames[(off+i*5)%len(fieldNames)], Type: drawType(t, depth-1)})
	}
	if n > 0 && chance(t, "manyFields", 8) { // scalars, so that values stay small
		for i := pick(t, "moreFields", 4, 8, 12, 28, 40, 70); i > 0; i-- {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("More%02d", i), Type: goScalars[(off+i)%len(goScalars)]})
		}
	}
	return reflect.StructOf(fs)
}

// goMode says what may stand behind an interface{}: anything (conversion to a document) or what a document decodes to.
type goMode struct{ canonical bool }

var canonTypes = append(typesOf(int64(0), float64(0), float32(0), "", true, time.Time{}, []byte(nil), map[string]interface{}(nil), []interface{}(nil)))

func drawGo(t *rapid.T, tp reflect.Type, depth int, mode goMode) reflect.Value {
	v := reflect.New(tp).Elem()
	switch tp {
	case docType:
		if !chance(t, "nilDoc", 8) {
			v.Set(reflect.ValueOf(build(drawTree(t, &treeOpts{kinds: allKinds, depth: 2, maxFan: 3}), drawRnd(t, "docRoute"))))
		}
		return v
	case timeType:
		v.Set(reflect.ValueOf(time.UnixMilli(drawTime(t, "goTime"))))
		return v
	case bytesType:
		if b := drawBytes(t, "goBytes", false); len(b) > 0 || rapid.Bool().Draw(t, "nilBytes") {
			v.SetBytes(b)
		}
		return v
	}
	switch tp.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "goBool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(drawInt(t, "goInt") << (64 - uint(tp.Bits())) >> (64 - uint(tp.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(drawInt(t, "goUint")) & math.MaxInt64 << (64 - uint(tp.Bits())) >> (64 - uint(tp.Bits())))
	case reflect.Float32:
		v.SetFloat(float64(drawFloat32(t, "goF32")))
	case reflect.Float64:
		v.SetFloat(drawDouble(t, "goF64"))
	case reflect.String:
		v.SetString(drawStr(t, "goStr", false))
	case reflect.Ptr:
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "nilPtr") > 0 {
			p := reflect.New(tp.Elem())
			p.Elem().Set(drawGo(t, tp.Elem(), depth-1, mode))
			v.Set(p)
		}
	case reflect.Interface:
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "nilAny") > 0 {
			var it reflect.Type
			if mode.canonical {
				it = canonTypes[rapid.IntRange(0, len(canonTypes)-1).Draw(t, "anyType")]
			} else {
				it = drawType(t, depth-1)
				if chance(t, "aDocument", 10) {
					it = pick(t, "docIn", docType, docType, reflect.SliceOf(docType), reflect.MapOf(strType, docType), reflect.TypeOf(struct {
						Doc *dx.DxValue
						N   int
					}{}))
				}
			}
			if x := drawGo(t, it, depth-1, mode); x.IsValid() && !(x.Kind() == reflect.Interface && x.IsNil()) {
				v.Set(x)
			}
		}
	case reflect.Slice:
		if rapid.IntRange(0, 5).Draw(t, "nilSlice") > 0 {
			n := rapid.IntRange(0, 4).Draw(t, "goLen")
			if depth <= 0 {
				n = 0
			}
			long := n
			if n > 0 && chance(t, "goLong", 12) {
				long = pick(t, "goLongLen", 9, 16, 17, 33, 40, 300)
			}
			drawn := make([]reflect.Value, n)
			size := 0
			for i := range drawn {
				drawn[i] = drawGo(t, tp.Elem(), depth-1, mode)
				size += countNodes(describe(drawn[i]))
			}
			if long > n && long*size > n*goMaxNodes { // repetition at several levels must not multiply up
				long = n
			}
			v.Set(reflect.MakeSlice(tp, long, long+rapid.IntRange(0, 2).Draw(t, "spare")))
			for i := 0; i < long; i++ {
				v.Index(i).Set(drawn[i%n])
			}
		}
	case reflect.Array:
		for i := 0; i < tp.Len(); i++ {
			v.Index(i).Set(drawGo(t, tp.Elem(), depth-1, mode))
		}
	case reflect.Map:
		if rapid.IntRange(0, 5).Draw(t, "nilMap") > 0 {
			v.Set(reflect.MakeMap(tp))
			n := rapid.IntRange(0, 4).Draw(t, "goLen")
			if depth <= 0 {
				n = 0
			}
			var last reflect.Value
			for i := 0; i < n; i++ {
				last = drawGo(t, tp.Elem(), depth-1, mode)
				v.SetMapIndex(reflect.ValueOf(drawKey(t, "goKey")).Convert(tp.Key()), last)
			}
			if n > 0 && chance(t, "goLong", 12) {
				long := pick(t, "goLongLen", 9, 16, 17, 33, 40, 300)
				if long*countNodes(describe(last)) > goMaxNodes {
					long = 1
				}
				for i := long; i > 0; i-- {
					v.SetMapIndex(reflect.ValueOf(fmt.Sprint("long", i)).Convert(tp.Key()), last)
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < tp.NumField(); i++ {
			v.Field(i).Set(drawGo(t, tp.Field(i).Type, depth-1, mode))
		}
	default:
		panic("harness: no value for " + tp.String())
	}
	return v
}

const goMaxNodes = 4000

func countNodes(m *M) int {
	n := 1
	for _, k := range m.Kids {
		n += countNodes(k)
	}
	return n
}

const unordered = "unordered" // M.S of an object that came from a map

// describe: the document a Go value describes.
func describe(v reflect.Value) *M {
	if !v.IsValid() {
		return &M{K: KNull}
	}
	switch v.Type() {
	case docType:
		if v.IsNil() {
			return &M{K: KNull}
		}
		return observe(v.Interface().(*dx.DxValue), nil)
	case timeType:
		return &M{K: KTime, I: v.Interface().(time.Time).UnixMilli()}
	case bytesType:
		return &M{K: KBin, Bin: v.Bytes()}
	case codedType:
		return &M{K: KString, S: fmt.Sprintf("coded:%d", v.Field(0).Int())}
	}
	switch v.Kind() {
	case reflect.Bool:
		return &M{K: KBool, B: v.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &M{K: KInt, I: v.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &M{K: KInt, I: int64(v.Uint())}
	case reflect.Float32:
		return &M{K: KFloat, F: v.Float()}
	case reflect.Float64:
		return &M{K: KDouble, F: v.Float()}
	case reflect.String:
		return &M{K: KString, S: v.String()}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return &M{K: KNull}
		}
		return describe(v.Elem())
	case reflect.Slice, reflect.Array:
		m := &M{K: KArr}
		for i := 0; i < v.Len(); i++ {
			m.Kids = append(m.Kids, describe(v.Index(i)))
		}
		return m
	case reflect.Map:
		m := &M{K: KObj, S: unordered}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			m.Keys = append(m.Keys, k.String())
			m.Kids = append(m.Kids, describe(v.MapIndex(k)))
		}
		return m
	case reflect.Struct:
		m := &M{K: KObj}
		for i := 0; i < v.NumField(); i++ {
			m.Keys = append(m.Keys, v.Type().Field(i).Name)
			m.Kids = append(m.Kids, describe(v.Field(i)))
		}
		return m
	}
	panic("harness: cannot describe " + v.Type().String())
}

// reorder puts the members of got's objects into the order of the map-born objects of want.
func reorder(want, got *M) {
	if want == nil || got == nil || want.K != got.K || len(want.Kids) != len(got.Kids) {
		return
	}
	if want.K == KObj && want.S == unordered {
		keys, kids := []string{}, []*M{}
		for _, k := range want.Keys {
			if i := got.keyIndex(k); i >= 0 {
				keys, kids = append(keys, k), append(kids, got.Kids[i])
			}
		}
		if len(keys) != len(got.Keys) {
			return
		}
		got.Keys, got.Kids = keys, kids
	}
	for i := range want.Kids {
		reorder(want.Kids[i], got.Kids[i])
	}
}

func diffGo(want, got *M) string {
	reorder(want, got)
	return diff(want, got, cmpMode{numeric: true})
}

func goClasses(c *Case, v reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	if v.Type() == docType {
		c.Class("document")
		return
	}
	k := v.Kind()
	c.Class("kind " + k.String())
	switch k {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			c.Class("nil " + k.String())
		} else {
			goClasses(c, v.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 2; i++ {
			goClasses(c, v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			goClasses(c, v.MapIndex(k), depth+1)
			break
		}
	case reflect.Struct:
		if v.Type() == timeType {
			c.Class("time")
			return
		}
		for i := 0; i < v.NumField(); i++ {
			goClasses(c, v.Field(i), depth+1)
		}
	}
}

func uniqClasses(c *Case) {
	seen := map[string]bool{}
	var u []string
	for _, x := range c.classes {
		if !seen[x] {
			seen[x] = true
			u = append(u, x)
		}
	}
	c.classes = u
}

func compound(m *M) bool { return m.isContainer() && len(m.Kids) > 0 }

func TestC22(t *testing.T) {
	run(t, "Go values of random types (all scalar kinds and named ones, times, byte slices, pointers, slices, arrays, string-keyed maps, interfaces, anonymous and declared structs, marshalers, documents, nested up to 4 levels), passed by value or by pointer to SetValue, NewValueFrom, SetKeyvalue and SetIndexvalue of fresh or used, cached or uncached values; oracle: an independent reflection walk describing the value, compared with every read of the result, and the other members of the container unchanged; non-trivial: a non-empty compound value",
		func(t *rapid.T, c *Case) {
			tp := drawRootType(t)
			x := drawGo(t, tp, 5, goMode{})
			want := describe(x)
			var arg interface{}
			byPtr := rapid.Bool().Draw(t, "byPtr")
			if byPtr {
				p := reflect.New(tp)
				p.Elem().Set(x)
				arg = p.Interface()
			} else {
				arg = x.Interface()
			}
			doing("converting a %v describing %s", tp, want)
			before := describe(x).String()
			var got, host *dx.DxValue
			var hostM *M
			route := rapid.IntRange(0, 3).Draw(t, "route")
			at := ""
			switch route {
			case 0:
				got = usedValue(t)
				got.SetValue(arg)
			case 1:
				got = dx.NewValueFrom(arg, rapid.Bool().Draw(t, "cached"))
			case 2: // a member of an object with other members
				hostM = drawTree(t, &treeOpts{kinds: allKinds, depth: 2, maxFan: 4, mid: true, root: []Kind{KObj}})
				host = build(hostM, drawRnd(t, "hostRoute"))
				at = drawKey(t, "at")
				if len(hostM.Keys) > 0 && rapid.Bool().Draw(t, "existing") {
					at = hostM.Keys[rapid.IntRange(0, len(hostM.Keys)-1).Draw(t, "which")]
				}
				var cache *dx.ValueCache
				if rapid.Bool().Draw(t, "useCache") {
					cache = host.ValueCache()
				}
				host.SetKeyvalue(at, arg, cache)
				if i := hostM.keyIndex(at); i >= 0 {
					hostM.Kids[i] = want
				} else {
					hostM.Keys, hostM.Kids = append(hostM.Keys, at), append(hostM.Kids, want)
				}
				got = host.ValueByName(at)
			case 3:
				hostM = drawTree(t, &treeOpts{kinds: allKinds, depth: 2, maxFan: 4, mid: true, root: []Kind{KArr}})
				host = build(hostM, drawRnd(t, "hostRoute"))
				i := rapid.IntRange(0, len(hostM.Kids)+1).Draw(t, "idx")
				var cache *dx.ValueCache
				if rapid.Bool().Draw(t, "useCache") {
					cache = host.ValueCache()
				}
				host.SetIndexvalue(i, arg, cache)
				if i < len(hostM.Kids) {
					hostM.Kids[i] = want
				} else {
					i = len(hostM.Kids)
					hostM.Kids = append(hostM.Kids, want)
				}
				got = host.ValueByIndex(i)
			}
			if got == nil {
				t.Fatalf("a %v describing %s gave nothing (route %d)", tp, want, route)
			}
			if d := diffGo(want, observe(got, nil)); d != "" {
				t.Fatalf("a %v (by pointer: %v, route %d) gave a different document: %s\nwant %s", tp, byPtr, route, d, want)
			}
			if host != nil {
				if d := diffGo(hostM, observe(host, drawRnd(t, "look"))); d != "" {
					t.Fatalf("setting %q to a %v: the container differs: %s", at, tp, d)
				}
			}
			if d := diffGo(want, observe(got, drawRnd(t, "look2"))); d != "" {
				t.Fatalf("second look: %s", d)
			}
			if after := describe(x).String(); after != before {
				t.Fatalf("the Go value changed from %s to %s", before, after)
			}
			goClasses(c, x, 0)
			c.ClassIf(byPtr, "by pointer")
			c.Class([]string{"SetValue", "NewValueFrom", "SetKeyvalue", "SetIndexvalue"}[route])
			uniqClasses(c)
			c.NonTrivial(compound(want), tp.String(), want.String())
			c.Sample(func() string { return clip(tp.String(), 200) + " = " + want.String() })
		})
}

func TestC23(t *testing.T) {
	run(t, "Go values of random types as for C22 (interfaces holding what documents decode to) converted to a document, optionally taken through MsgPack or BSON or recased with case-insensitive matching, and decoded into a fresh or pre-filled variable of the type (maps and slices of the common types also passed directly); decoding of unrelated documents into the type must not panic; oracle: the original value by an independent reflection walk; non-trivial: a non-empty compound value",
		func(t *rapid.T, c *Case) {
			tp := drawRootType(t)
			x := drawGo(t, tp, 5, goMode{canonical: true})
			want := describe(x)
			doing("round trip of a %v describing %s", tp, want)
			v := dx.NewValueFrom(x.Interface(), rapid.Bool().Draw(t, "cached"))
			if v.ReadOnly() || v.Type() == dx.VT_NULL && want.K != KNull {
				t.Fatalf("harness: unexpected %v", v.Type())
			}
			dest := reflect.New(tp)
			prefilled := rapid.Bool().Draw(t, "prefilled")
			var log string
			partial := false
			ignoreCase := rapid.Bool().Draw(t, "ignoreCase")
			switch rapid.IntRange(0, 5).Draw(t, "via") {
			case 5:
				if want.isContainer() && jsonSafe(want) {
					nv, err := dx.NewValueFromJson(v.ToJson(false, pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape), true, nil), rapid.Bool().Draw(t, "cached2"), rapid.Bool().Draw(t, "share"))
					if err != nil {
						t.Fatalf("own JSON rejected: %v\n%s", err, want)
					}
					v = nv
					log = "json"
					want.walk(func(n *M) { // "-0" is read as the integer it spells
						if (n.K == KFloat || n.K == KDouble) && n.F == 0 {
							n.F = 0
						}
					})
				}
			case 0:
				b := v.ToMsgPack(nil)
				nv, err := dx.NewValueFromMsgPack(b, rapid.Bool().Draw(t, "cached2"), rapid.Bool().Draw(t, "share"))
				if err != nil {
					t.Fatalf("own MsgPack rejected: %v\n%s", err, want)
				}
				v = nv
				log = "msgpack"
			case 1:
				if v.Type() == dx.VT_Object && bsonSafe(want) {
					nv, err := dx.NewValueFromBson(v.ToBson(nil), rapid.Bool().Draw(t, "cached2"), rapid.Bool().Draw(t, "share"))
					if err != nil {
						t.Fatalf("own BSON rejected: %v\n%s", err, want)
					}
					v = nv
					log = "bson"
				}
			case 2:
				if ignoreCase && tp.Kind() == reflect.Struct && tp != timeType && tp != reflect.TypeOf(registered{}) && v.Type() == dx.VT_Object && !foldingFields(tp) {
					nv := dx.NewObject(false)
					r := drawRnd(t, "recase")
					v.Visit(func(k string, ch *dx.DxValue) bool {
						switch r.n(3) {
						case 0:
							k = strings.ToUpper(k)
						case 1:
							k = strings.ToLower(k)
						}
						nv.SetKeyValue(k, ch)
						return true
					})
					nv.SetKeyString("no such field", "x")
					v = nv
					log = "recased"
				}
			}
			if prefilled {
				dest.Elem().Set(drawGo(t, tp, 4, goMode{canonical: true}))
			}
			old := describe(dest.Elem())
			// members the document lacks stay as they were; null clears what can be nil
			if tp.Kind() == reflect.Struct && tp != timeType && tp != reflect.TypeOf(registered{}) && log != "recased" && v.Type() == dx.VT_Object && rapid.IntRange(0, 2).Draw(t, "partial") == 0 {
				r := drawRnd(t, "holes")
				nulls, drops := 0, 0
				for i := 0; i < tp.NumField(); i++ {
					name := tp.Field(i).Name
					switch r.n(4) {
					case 0:
						v.RemoveKey(name)
						want.Kids[i] = old.Kids[i]
						drops++
					case 1:
						switch tp.Field(i).Type.Kind() {
						case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
							v.SetKeyValue(name, dx.NewValue(dx.VT_NULL))
							want.Kids[i] = describe(reflect.Zero(tp.Field(i).Type))
							nulls++
						}
					}
				}
				log += fmt.Sprintf(" with %d members removed and %d null", drops, nulls)
				partial = drops+nulls > 0
				c.ClassIf(drops > 0, "document lacks members")
				c.ClassIf(nulls > 0, "null members")
			}
			// an array of another length: what is too much is dropped, what is missing is zero
			if tp.Kind() == reflect.Array && v.Type() == dx.VT_Array && rapid.IntRange(0, 2).Draw(t, "otherLength") == 0 {
				if n := v.Count(); n > 0 && rapid.Bool().Draw(t, "shorter") {
					v.RemoveIndex(n - 1)
					want.Kids[n-1] = describe(reflect.Zero(tp.Elem()))
					log += " one element short"
				} else {
					v.Append(dx.VT_Int).SetInt(7)
					log += " one element too many"
				}
				partial = true
				c.Class("array of another length")
			}
			// directly passed maps and slices, before or after anything else was read from the document
			direct := func() {
				switch d := reflect.Zero(tp).Interface().(type) {
				case map[string]interface{}:
					d = map[string]interface{}{}
					if !v.ToStdValue(d, ignoreCase) {
						t.Fatalf("decoding %s into a map was refused", want)
					}
					if df := diffGo(want, describe(reflect.ValueOf(d))); df != "" {
						t.Fatalf("decoding into a map: %s", df)
					}
					c.Class("map passed directly")
				case map[string]string:
					d = map[string]string{}
					if !v.ToStdValue(d, ignoreCase) {
						t.Fatalf("decoding %s into a map was refused", want)
					}
					if df := diffGo(want, describe(reflect.ValueOf(d))); df != "" {
						t.Fatalf("decoding into a map: %s", df)
					}
					c.Class("map passed directly")
				case []interface{}:
					d = make([]interface{}, len(want.Kids))
					if !v.ToStdValue(d, ignoreCase) {
						t.Fatalf("decoding %s into a slice was refused", want)
					}
					if df := diffGo(want, describe(reflect.ValueOf(d))); df != "" {
						t.Fatalf("decoding into a slice: %s", df)
					}
					c.Class("slice passed directly")
				case []string:
					d = make([]string, len(want.Kids))
					if !v.ToStdValue(d, ignoreCase) {
						t.Fatalf("decoding %s into a slice was refused", want)
					}
					if df := diffGo(want, describe(reflect.ValueOf(d))); df != "" {
						t.Fatalf("decoding into a slice: %s", df)
					}
					c.Class("slice passed directly")
				}
			}
			directFirst := rapid.Bool().Draw(t, "directFirst")
			if directFirst {
				direct()
			}
			if !v.ToStdValue(dest.Interface(), ignoreCase) {
				t.Fatalf("decoding %s into a %v (%s) was refused", want, tp, log)
			}
			got := describe(dest.Elem())
			if d := diffGo(want, got); d != "" {
				t.Fatalf("decoding into a %v (before: %s; %s): %s\nwant %s", tp, old, log, d, want)
			}
			// the decoded value is a copy: the document is as it was and neither follows the other
			if rapid.Bool().Draw(t, "again") {
				before := observe(v, nil).clone()
				if d := diffGo(want, before.clone()); d != "" && log == "" && !partial {
					t.Fatalf("decoding changed the document: %s", d)
				}
				if flipBytes(dest.Elem()) {
					if d := diff(before, observe(v, nil), cmpMode{}); d != "" {
						t.Fatalf("writing into the byte slices of the decoded %v changed the document: %s", tp, d)
					}
					c.Class("decoded bytes overwritten")
				}
			}
			if !directFirst {
				direct()
			}
			// a document that need not match
			if rapid.IntRange(0, 2).Draw(t, "mismatch") == 0 {
				dm := drawTree(t, &treeOpts{kinds: allKinds, depth: 3, maxFan: 4, key: func(t *rapid.T, l string) string {
					return pick(t, l, append([]string{"a", "X", "S", "Next", "ByKey", "When", "Data", "Any", "N"}, fieldNames...)...)
				}})
				doing("decoding %s into a %v", dm, tp)
				build(dm, drawRnd(t, "mroute")).ToStdValue(dest.Interface(), ignoreCase)
				c.Class("mismatching document")
			}
			if chance(t, "reregister", 8) {
				checkReregister(t)
				c.Class("conversion registered anew")
			}
			if chance(t, "encodingJSON", 10) {
				if checkGoJSON(t, tp, x) {
					c.Class("package-level JSON of a Go value")
				}
			}
			goClasses(c, x, 0)
			c.ClassIf(prefilled, "pre-filled destination")
			c.ClassIf(log != "" && !partial, "via "+log)
			uniqClasses(c)
			c.NonTrivial(compound(want), tp.String(), want.String(), old.String(), log)
			c.Sample(func() string { return clip(tp.String(), 200) + " = " + want.String() + " " + log })
		})
}

// checkGoJSON: Marshal and Unmarshal of anything but a document are encoding/json's.
func checkGoJSON(t *rapid.T, tp reflect.Type, x reflect.Value) bool {
	for _, v := range []interface{}{x.Interface(), ptrTo(x)} {
		b1, err1 := json.Marshal(v)
		b2, err2 := dx.Marshal(v)
		if (err1 == nil) != (err2 == nil) || !bytes.Equal(b1, b2) {
			t.Fatalf("Marshal of a %T gives %s (%v), encoding/json gives %s (%v)", v, clip(string(b2), 500), err2, clip(string(b1), 500), err1)
		}
		if err1 != nil {
			return false
		}
		if rapid.IntRange(0, 3).Draw(t, "cutJSON") == 0 && len(b1) > 0 {
			b1 = b1[:len(b1)-1]
		}
		y1, y2 := reflect.New(tp), reflect.New(tp)
		err1, err2 = json.Unmarshal(b1, y1.Interface()), dx.Unmarshal(b1, y2.Interface())
		if (err1 == nil) != (err2 == nil) {
			t.Fatalf("Unmarshal of %s into a %v: %v, encoding/json: %v", clip(string(b1), 500), tp, err2, err1)
		}
		if d := diffGo(describe(y1.Elem()), describe(y2.Elem())); d != "" {
			t.Fatalf("Unmarshal of %s into a %v differs from encoding/json: %s", clip(string(b1), 500), tp, d)
		}
	}
	return true
}

func ptrTo(x reflect.Value) interface{} {
	p := reflect.New(x.Type())
	p.Elem().Set(x)
	return p.Interface()
}

// foldingFields: does the struct have two fields that differ only in case?
func foldingFields(tp reflect.Type) bool {
	for i := 0; i < tp.NumField(); i++ {
		for j := 0; j < i; j++ {
			if strings.EqualFold(tp.Field(i).Name, tp.Field(j).Name) {
				return true
			}
		}
	}
	return false
}

// stamped is decoded by the function registered for it last, or like any struct when that function is nil.
type stamped struct{ N, By int64 }

func checkReregister(t *rapid.T) {
	tp := reflect.TypeOf(stamped{})
	m := &M{K: KObj, Keys: []string{"N", "By"}, Kids: []*M{{K: KInt, I: drawInt(t, "stampN")}, {K: KInt, I: 77}}}
	by := int64(77)
	for i := rapid.IntRange(1, 3).Draw(t, "registrations"); i > 0; i-- {
		by = drawInt(t, "stampBy")
		if rapid.IntRange(0, 3).Draw(t, "unregister") == 0 {
			by = 77
			dx.RegisterTypeMapFunc(tp, nil)
			continue
		}
		mine := by
		dx.RegisterTypeMapFunc(tp, func(f reflect.Value, v *dx.DxValue) {
			f.Set(reflect.ValueOf(stamped{v.AsInt64("N", -1), mine}))
		})
	}
	want := stamped{m.Kids[0].I, by}
	var got stamped
	var holder struct {
		One  stamped
		Ptr  *stamped
		List []stamped
		Map  map[string]stamped
		Arr  [1]*stamped
	}
	arr := &M{K: KArr, Kids: []*M{m}}
	doc := build(&M{K: KObj, Keys: []string{"One", "Ptr", "List", "Map", "Arr"}, Kids: []*M{m, m, arr, {K: KObj, Keys: []string{"k"}, Kids: []*M{m}}, arr}}, drawRnd(t, "stampRoute"))
	ignoreCase := rapid.Bool().Draw(t, "stampCase")
	if !doc.ValueByName("One").ToStdValue(&got, ignoreCase) || got != want {
		t.Fatalf("a type with a conversion registered: got %v, want %v", got, want)
	}
	if !doc.ToStdValue(&holder, ignoreCase) || holder.One != want || holder.Ptr == nil || *holder.Ptr != want || len(holder.List) != 1 || holder.List[0] != want || holder.Map["k"] != want || holder.Arr[0] == nil || *holder.Arr[0] != want {
		t.Fatalf("a struct holding a type with a conversion registered: got %+v, want %v everywhere", holder, want)
	}
}

// flipBytes overwrites the byte slices of v and tells whether there were any.
func flipBytes(v reflect.Value) (any bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return flipBytes(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				any = flipBytes(v.Field(i)) || any
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			any = flipBytes(v.MapIndex(k)) || any
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if e := v.Index(i); e.Kind() == reflect.Uint8 {
				if v.Kind() == reflect.Slice {
					e.SetUint(e.Uint() ^ 0x55)
					any = true
				}
			} else {
				any = flipBytes(e) || any
			}
		}
	}
	return
}

// jsonSafe: nothing JSON has no spelling for.
func jsonSafe(m *M) bool {
	ok := true
	m.walk(func(n *M) {
		if n.K == KBin || n.K == KExt {
			ok = false
		}
	})
	return ok
}

// bsonSafe: no NUL in keys, no float32-only or untyped content BSON cannot say.
func bsonSafe(m *M) bool {
	ok := true
	m.walk(func(n *M) {
		for _, k := range n.Keys {
			if strings.IndexByte(k, 0) >= 0 {
				ok = false
			}
		}
	})
	return ok
}
