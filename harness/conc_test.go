package harness

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// A program is a list of steps over its own documents; running it gives a transcript. Everything random in it is
// fixed when it is drawn, so it can run in any goroutine, any number of times.
type progStep struct {
	op     int
	format int
	b      []byte // input of a decode
	m      *M     // document to build
	seed   uint64
	cached bool
	share  bool
}

type prog []progStep

type concStruct struct {
	Name  string
	N     int
	F     float64
	T     time.Time
	L     []string
	M     map[string]int
	P     *concStruct
	Reg   registered
	Any   interface{}
	Bytes []byte
}

func drawProg(t *rapid.T) prog {
	n := rapid.IntRange(2, 10).Draw(t, "steps")
	var p prog
	for i := 0; i < n; i++ {
		s := progStep{op: rapid.IntRange(0, 9).Draw(t, "op"), seed: rapid.Uint64Min(1).Draw(t, "stepSeed"), cached: rapid.Bool().Draw(t, "cached"), share: rapid.Bool().Draw(t, "share")}
		switch s.op {
		case 0, 1, 2, 3, 8:
			s.format = rapid.IntRange(0, len(formats)-1).Draw(t, "format")
			s.b = formats[s.format].valid(t)
			if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
				s.b = mutate(t, s.b, formats[s.format].bad)
			}
		default:
			s.m = drawTree(t, &treeOpts{kinds: allKinds, depth: 2, maxFan: 4, mid: true})
		}
		p = append(p, s)
	}
	return p
}

func snapshot(v *dx.DxValue, r *rnd, out *strings.Builder) {
	if v == nil {
		out.WriteString("nothing\n")
		return
	}
	switch r.n(7) {
	case 0:
		out.WriteString(observe(v, &rnd{uint64(r.n(1 << 30))}).String())
	case 1:
		out.Write(v.ToJson(r.n(2) == 0, dx.JsonEscapeStyle(r.n(3)), r.n(2) == 0, nil))
	case 2:
		fmt.Fprintf(out, "%x", v.ToMsgPack(nil))
	case 3:
		if v.Type() == dx.VT_Object {
			fmt.Fprintf(out, "%x", v.ToBson(nil))
		}
	case 4:
		out.WriteString(v.String())
	case 5:
		b, err := dx.Marshal(v)
		fmt.Fprint(out, string(b), err)
	case 6:
		how := r.n(4)
		v.Visit(func(k string, c *dx.DxValue) bool {
			fmt.Fprintf(out, "%q=%v,%v,%v,%v;", k, c.Int(), c.Double(), c.Bool(), c.GoTime().UnixMilli())
			switch how {
			case 1:
				fmt.Fprint(out, c.Duration(7), c.DateTime(), c.Float(), c.Binary(), c.ExtType, c.BinLen(), c.Count())
			case 2:
				fmt.Fprint(out, v.AsDuration(7, k), v.AsDateTime(k, 3), v.AsFloat(k, 3), v.AsString(k, "d"), v.TimeByName(k, time.Time{}), v.BoolByName(k, true), v.IntByName(k, 1))
			case 3:
				fmt.Fprint(out, c.String(), v.IntByPath(3, k, "a"), v.DurationByPath(7, k), v.StringByPath("", k, "0"), v.ValueByPath(k, "a", "b") == nil, v.Find(k) == nil)
			}
			return true
		})
	}
	out.WriteByte('\n')
}

func (p prog) run() (transcript string) {
	var out strings.Builder
	defer func() {
		if e := recover(); e != nil {
			transcript = out.String() + fmt.Sprintf("PANIC %v", e)
		}
	}()
	var docs []*dx.DxValue
	last := func(r *rnd) *dx.DxValue {
		if len(docs) == 0 {
			return nil
		}
		return docs[r.n(len(docs))]
	}
	for i := range p {
		s := &p[i]
		r := &rnd{s.seed}
		fmt.Fprintf(&out, "%d:%d ", i, s.op)
		switch s.op {
		case 0, 1, 2:
			v, err := formats[s.format].fresh(append([]byte(nil), s.b...), s.cached, s.share)
			if err != nil {
				fmt.Fprintf(&out, "error %v\n", err)
				continue
			}
			snapshot(v, r, &out)
			docs = append(docs, v)
		case 3: // load into an old one
			v := last(r)
			if v == nil || v.ReadOnly() {
				v = dx.NewObject(s.cached)
				docs = append(docs, v)
			}
			err := formats[s.format].load(v, append([]byte(nil), s.b...), s.share)
			if err != nil {
				fmt.Fprintf(&out, "error %v\n", err)
				docs = nil // what is left in v is unspecified
				continue
			}
			snapshot(v, r, &out)
		case 4:
			v := build(s.m, r)
			snapshot(v, r, &out)
			docs = append(docs, v)
		case 5:
			if v := last(r); v != nil {
				w := v.Clone(s.cached)
				fmt.Fprint(&out, v.Equal(w), w.Equal(v), " ")
				snapshot(w, r, &out)
				docs = append(docs, w)
			}
		case 6:
			if v := last(r); v != nil && !v.ReadOnly() {
				w := build(s.m, r)
				v.MergeWith(w, func(path string, old, add *dx.DxValue) dx.MergeOp {
					fmt.Fprintf(&out, "%q ", path)
					return []dx.MergeOp{dx.MO_Normal, dx.MO_Replace, dx.MO_Custom}[r.n(3)]
				})
				snapshot(v, r, &out)
				snapshot(w, r, &out)
			}
		case 7: // Go values
			x := concStruct{Name: "n", N: r.n(100), F: 1.5, T: time.UnixMilli(1600000000000 + int64(r.n(1000000))*1000), L: []string{"a", "b"}, M: map[string]int{"k": r.n(9)},
				P: &concStruct{Name: "inner"}, Reg: registered{int32(r.n(9)), 2}, Any: []interface{}{int64(1), "x", nil, true}, Bytes: []byte{1, 2, 3}}
			x.P.T = x.T
			v := dx.NewValueFrom(&x, s.cached)
			var y concStruct
			ok := v.ToStdValue(&y, r.n(2) == 0)
			fmt.Fprint(&out, ok, " ", describe(reflect.ValueOf(y)), " ")
			snapshot(v, r, &out)
			docs = append(docs, v)
		case 8: // free and go on
			if v := last(r); v != nil {
				dx.FreeValue(v)
				docs = nil // an element may be shared by two entries
			}
			v, err := formats[s.format].fresh(append([]byte(nil), s.b...), true, s.share)
			if err != nil {
				fmt.Fprintf(&out, "error %v\n", err)
				continue
			}
			snapshot(v, r, &out)
			dx.FreeValue(v)
		case 9: // edits
			v := last(r)
			if v == nil || v.ReadOnly() {
				continue
			}
			if v.Type() != dx.VT_Object {
				v.Reset(dx.VT_Object)
			}
			v.SetKeyInt("n", int64(r.n(1000)))
			v.SetKeyBool("b", r.n(2) == 0)
			v.SetKey("null", dx.VT_NULL)
			v.SetKeyTime("t", time.UnixMilli(1600000000000))
			v.ForcePath(dx.VT_String, "p", "q", "r").SetString("deep")
			v.SetKeyvalue("list", []interface{}{1, "two", 3.5, []byte("four")}, v.ValueCache())
			fill(v.SetKey("m", vt(s.m)), s.m, r)
			v.RemoveKey("n")
			x := v.ExtractValue("b")
			fmt.Fprint(&out, x.Bool(), " ")
			// the shared constants refuse every change
			for _, k := range []dx.ValueType{dx.VT_NULL, dx.VT_True, dx.VT_NAN} {
				x := v.SetKey("const", k)
				switch r.n(10) {
				case 0:
					x.SetTime(time.UnixMilli(1600000000000))
				case 1:
					x.SetInt(int64(r.n(100)))
				case 2:
					x.SetString("s")
				case 3:
					x.SetBinary([]byte("b"), r.n(2) == 0)
				case 4:
					x.SetDouble(1.5)
				case 5:
					x.SetDelphiTime(5)
				case 6:
					x.SetFloat(2.5)
				case 7:
					x.SetValue(map[string]int{"a": 1})
				case 8:
					x.SetBool(r.n(2) == 0)
					x.Clear()
				case 9:
					x.SetExtType(3)
					x.Reset(dx.VT_Object)
				}
				fmt.Fprint(&out, x.Type(), x.Bool(), x.Int(), " ")
			}
			snapshot(v, r, &out)
		}
	}
	for _, v := range docs {
		snapshot(v, &rnd{77}, &out)
	}
	return out.String()
}

func TestC20(t *testing.T) {
	run(t, "2..8 goroutines each running its own drawn program of 2..10 steps (decode valid or damaged JSON/MsgPack/BSON/YAML, load, build, clone, compare, merge, convert Go values both ways, edit, encode, free; cached and uncached), several times at once behind a start barrier, half of the shards under the race detector, before or after the runs alone, and in 48 fresh processes so that whatever is prepared on first use is prepared concurrently; oracle: the transcript of the same program run alone; non-trivial: at least 3 goroutines and two kinds of step",
		func(t *rapid.T, c *Case) {
			n := rapid.IntRange(2, 8).Draw(t, "goroutines")
			if chance(t, "crowd", 16) {
				n = pick(t, "crowdOf", 12, 16, 17, 33)
			}
			var ps []prog
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 {
					ps = append(ps, ps[rapid.IntRange(0, i-1).Draw(t, "which")])
				} else {
					ps = append(ps, drawProg(t))
				}
			}
			doing("programs %v", ps)
			want := make([]string, n)
			alone := func() {
				for i, p := range ps {
					want[i] = p.run()
				}
				for i, p := range ps { // alone, a program is deterministic
					if got := p.run(); got != want[i] {
						t.Fatalf("run alone twice, program %d gives different results:\n%s\nand\n%s", i, clip(want[i], 1500), clip(got, 1500))
					}
				}
			}
			// together first: whatever the library prepares on first use is then prepared by several goroutines at once
			aloneFirst := rapid.Bool().Draw(t, "aloneFirst") && os.Getenv("VERIF_COLD") == ""
			if aloneFirst {
				alone()
			}
			const reps = 3
			got := make([][reps]string, n)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range ps {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for k := 0; k < reps; k++ {
						got[i][k] = ps[i].run()
					}
				}(i)
			}
			close(start)
			wg.Wait()
			if !aloneFirst {
				alone()
			}
			for i := range ps {
				for k := 0; k < reps; k++ {
					if got[i][k] != want[i] {
						t.Fatalf("program %d of %d gives something else when run concurrently:\nalone:\n%s\nconcurrently:\n%s", i, n, clip(want[i], 1500), clip(got[i][k], 1500))
					}
				}
			}
			ops := map[int]bool{}
			for _, p := range ps {
				for _, s := range p {
					ops[s.op] = true
				}
			}
			for o := range ops {
				c.Class([]string{"decode", "decode", "decode", "load", "build", "clone", "merge", "go values", "free", "edit"}[o])
			}
			uniqClasses(c)
			c.NonTrivial(n >= 3 && len(ops) >= 2, strings.Join(want, "|"))
			c.Sample(func() string { return fmt.Sprintf("%d goroutines; first: %s", n, clip(want[0], 400)) })
		})
}
