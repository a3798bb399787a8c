package harness

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var bom = []byte{0xef, 0xbb, 0xbf}

func TestC26(t *testing.T) {
	base, err := os.MkdirTemp("", "c26-")
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	defer os.RemoveAll(base)
	serial := 0
	run(t, "histories of 1..8 operations on up to three files in a scratch directory: saving documents as JSON (with and without BOM, formatted or not), saving binaries and extensions, files written by others (JSON, MsgPack, YAML, with and without BOM, sizes around the reader's buffer), loading each back by every file reader, and failing targets (missing directory, a directory, a full device); oracle: the expected file bytes/document and an error exactly for the failing targets; non-trivial: a file is overwritten with other content or a target fails",
		func(t *rapid.T, c *Case) {
			serial++
			dir := filepath.Join(base, fmt.Sprint(serial))
			if err := os.Mkdir(dir, 0o755); err != nil {
				t.Fatalf("harness: %v", err)
			}
			defer os.RemoveAll(dir)
			content := map[string][]byte{} // what each file must hold (nil: unknown)
			docs := map[string]*M{}        // the document a JSON file must denote
			var log []string
			over, failed := 0, 0
			n := rapid.IntRange(1, 8).Draw(t, "ops")
			for i := 0; i < n; i++ {
				name := filepath.Join(dir, pick(t, "file", "a.json", "b.json", "c.bin"))
				_, existed := content[name]
				doing("%v", log)
				switch rapid.IntRange(0, 6).Draw(t, "op") {
				case 0, 1: // save a document
					m, v := anyDoc(t)
					withBom, format := rapid.Bool().Draw(t, "bom"), rapid.Bool().Draw(t, "format")
					log = append(log, fmt.Sprintf("Value2File %s bom=%v format=%v %s", filepath.Base(name), withBom, format, clip(m.String(), 200)))
					if err := dx.Value2File(v, name, withBom, format); err != nil {
						t.Fatalf("saving failed: %v\n%q", err, log)
					}
					b, err := os.ReadFile(name)
					if err != nil {
						t.Fatalf("nothing saved: %v\n%q", err, log)
					}
					if bytes.HasPrefix(b, bom) != withBom {
						t.Fatalf("BOM requested %v, file starts %q\n%q", withBom, clip(string(b), 10), log)
					}
					text := b
					if withBom {
						text = b[3:]
					}
					same := false
					for i := 0; i < 4; i++ {
						same = same || bytes.Equal(text, v.ToJson(format, []dx.JsonEscapeStyle{dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape}[i/2], i%2 == 1, nil))
					}
					if !same {
						t.Fatalf("the file does not hold the document's encoding: %q\n%q", clip(string(b), 600), log)
					}
					if !hasKind(m, KNaN, KInf) {
						got, err := stdJSON(text)
						if err != nil {
							t.Fatalf("the file is no JSON: %v\n%q\n%q", err, clip(string(b), 600), log)
						}
						if d := diff(m, got, cmpMode{numeric: true, textBin: true}); d != "" {
							t.Fatalf("the file denotes another document: %s\n%q", d, log)
						}
						docs[name] = m
					} else {
						delete(docs, name)
					}
					content[name] = b
				case 2: // save a binary
					m := drawLeaf(t, pick(t, "binKind", KBin, KExt), &treeOpts{big: true})
					v := build(m, drawRnd(t, "route"))
					log = append(log, fmt.Sprintf("SaveBinaryToFile %s %s", filepath.Base(name), clip(m.String(), 100)))
					if err := v.SaveBinaryToFile(name); err != nil {
						t.Fatalf("saving failed: %v\n%q", err, log)
					}
					b, err := os.ReadFile(name)
					if err != nil || !bytes.Equal(b, m.Bin) {
						t.Fatalf("the file holds %d bytes (%v), want the %d bytes of the binary\n%q", len(b), err, len(m.Bin), log)
					}
					content[name] = b
					delete(docs, name)
				case 3: // written by someone else
					var b []byte
					kind := pick(t, "foreign", "json", "msgpack", "yaml", "raw")
					var m *M
					switch kind {
					case "json":
						m = jsonTree(t)
						b = renderJSON(m, drawRnd(t, "spelling"))
					case "msgpack":
						m = drawTree(t, &treeOpts{kinds: mpKinds, depth: 2, maxFan: 4})
						fixExt(m)
						b = mpEncode(nil, m, drawRnd(t, "spelling"))
					case "yaml":
						b, m, _ = drawYAML(t)
					case "raw":
						b = fillBytes(pick(t, "size", 0, 1, 2, 3, 510, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 70000), 3)
					}
					if kind != "msgpack" && kind != "raw" && rapid.Bool().Draw(t, "foreignBom") {
						b = append(append([]byte{}, bom...), b...)
					}
					log = append(log, fmt.Sprintf("a %s file %s of %d bytes", kind, filepath.Base(name), len(b)))
					if err := os.WriteFile(name, b, 0o644); err != nil {
						t.Fatalf("harness: %v", err)
					}
					content[name] = b
					delete(docs, name)
					cached := rapid.Bool().Draw(t, "cached")
					var v *dx.DxValue
					var err error
					switch kind {
					case "json":
						docs[name] = m
						v, err = dx.NewValueFromJsonFile(name, cached)
					case "msgpack":
						v, err = dx.NewValueFromMsgPackFile(name, cached)
					case "yaml":
						v, err = dx.NewValueFromYamlFile(name, cached)
					case "raw":
						got, err := dx.ReadFile(name)
						if err != nil || !bytes.Equal(got, b) {
							t.Fatalf("ReadFile gives %d of %d bytes, %v\n%q", len(got), len(b), err, log)
						}
						continue
					}
					if err != nil {
						t.Fatalf("reading a %s file failed: %v\n%q\n%q", kind, err, clip(string(b), 400), log)
					}
					if d := diff(m, observe(v, drawRnd(t, "look")), cmpMode{numeric: true}); d != "" {
						t.Fatalf("reading a %s file: %s\n%q", kind, d, log)
					}
				case 4: // load a document file
					m := docs[name]
					if m == nil {
						continue
					}
					v, err := dx.NewValueFromJsonFile(name, rapid.Bool().Draw(t, "cached"))
					log = append(log, "NewValueFromJsonFile "+filepath.Base(name))
					if err != nil {
						t.Fatalf("loading failed: %v\n%q", err, log)
					}
					if d := diff(m, observe(v, drawRnd(t, "look")), cmpMode{numeric: true, textBin: true}); d != "" {
						t.Fatalf("loading gives another document: %s\n%q", d, log)
					}
				case 5: // load a binary file
					want, ok := content[name]
					if !ok {
						continue
					}
					m := drawLeaf(t, pick(t, "binKind", KBin, KExt), &treeOpts{})
					v := build(m, drawRnd(t, "route"))
					log = append(log, fmt.Sprintf("SetBinaryFromFile %s into a %v", filepath.Base(name), m.K))
					if err := v.SetBinaryFromFile(name); err != nil {
						t.Fatalf("loading failed: %v\n%q", err, log)
					}
					m.Bin = want
					if d := diff(m, observe(v, nil), cmpMode{}); d != "" || v.BinLen() != len(want) {
						t.Fatalf("loading gives something else: %s\n%q", d, log)
					}
				case 6: // failing targets
					failed++
					_, v := anyDoc(t)
					bin := build(&M{K: KBin, Bin: []byte("some content")}, nil)
					before := observe(bin, nil)
					for _, bad := range []string{filepath.Join(dir, "no", "such", "dir"), dir, ""} {
						if dx.Value2File(v, bad, rapid.Bool().Draw(t, "bom"), rapid.Bool().Draw(t, "format")) == nil {
							t.Fatalf("Value2File to %q reports no error", bad)
						}
						if bin.SaveBinaryToFile(bad) == nil {
							t.Fatalf("SaveBinaryToFile to %q reports no error", bad)
						}
						if w, err := dx.NewValueFromJsonFile(bad, true); err == nil || w != nil {
							t.Fatalf("NewValueFromJsonFile of %q gives %v, %v", bad, w, err)
						}
						if w, err := dx.NewValueFromMsgPackFile(bad, true); err == nil || w != nil {
							t.Fatalf("NewValueFromMsgPackFile of %q gives %v, %v", bad, w, err)
						}
						if w, err := dx.NewValueFromYamlFile(bad, true); err == nil || w != nil {
							t.Fatalf("NewValueFromYamlFile of %q gives %v, %v", bad, w, err)
						}
						if bin.SetBinaryFromFile(bad) == nil {
							t.Fatalf("SetBinaryFromFile of %q reports no error", bad)
						}
						if _, err := dx.ReadFile(bad); err == nil {
							t.Fatalf("ReadFile of %q reports no error", bad)
						}
					}
					if d := diff(before, observe(bin, nil), cmpMode{}); d != "" {
						t.Fatalf("a failed SetBinaryFromFile changed the value: %s", d)
					}
					// a device that takes nothing
					if fullDevice && dx.Value2File(v, "/dev/full", rapid.Bool().Draw(t, "bom"), rapid.Bool().Draw(t, "format")) == nil {
						t.Fatalf("Value2File to a full device reports no error")
					}
					if fullDevice && bin.SaveBinaryToFile("/dev/full") == nil {
						t.Fatalf("SaveBinaryToFile to a full device reports no error")
					}
				}
				if now, ok := content[name]; existed && ok && len(now) >= 0 {
					over++
				}
			}
			// every file still holds what was last written
			for name, want := range content {
				if got, err := os.ReadFile(name); err != nil || !bytes.Equal(got, want) {
					t.Fatalf("%s changed later: %v\n%q", filepath.Base(name), err, log)
				}
			}
			c.ClassIf(over > 0, "file overwritten")
			c.ClassIf(failed > 0, "failing target")
			c.NonTrivial(over > 0 || failed > 0, fmt.Sprint(log), uint64(failed))
			c.Sample(func() string { return strings.Join(log, "; ") })
		})
}

var fullDevice = func() bool {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return false
	}
	defer f.Close()
	_, err = f.Write([]byte("x"))
	return err != nil
}()

// ---------------------------------------------------------------------------

// jsonMeaning: what a JSON output denotes (bytes may differ in how escapes are spelled).
func jsonMeaning(b []byte) *M {
	m, err := stdJSON(b)
	if err != nil {
		return &M{K: KString, S: "unparsable " + string(b)}
	}
	return m
}

// readSomething performs one random read-only call on a random node.
func readSomething(t *rapid.T, v *dx.DxValue, m, peerM *M, peer *dx.DxValue) string {
	nv, nm, path := pickNode(t, v, m)
	key := ""
	if len(nm.Keys) > 0 && rapid.Bool().Draw(t, "existing") {
		key = nm.Keys[rapid.IntRange(0, len(nm.Keys)-1).Draw(t, "which")]
	} else {
		key = pick(t, "key", "a", "0", "1", "name", "NAME", "", "no such", "\\u0061", "x\\", "中")
	}
	idx := (&editor{}).index(t, nm)
	what := ""
	switch rapid.IntRange(0, 17).Draw(t, "read") {
	case 0:
		what = "typed values"
		_, _, _, _, _, _, _ = nv.Int(), nv.Float(), nv.Double(), nv.Bool(), nv.GoTime(), nv.DateTime(), nv.Duration(1)
	case 1:
		what = "String"
		_ = nv.String()
	case 2:
		what = "AsX by name"
		_, _, _, _, _, _ = nv.AsInt(key, 1), nv.AsInt64(key, 2), nv.AsBool(key, true), nv.AsDouble(key, 1), nv.AsFloat(key, 1), nv.AsDateTime(key, 1)
		_, _, _ = nv.AsString(key, "d"), nv.TimeByName(key, time.Time{}), nv.AsDuration(1, key)
	case 3:
		what = "by index"
		_, _, _, _, _ = nv.IntByIndex(idx, 1), nv.StringByIndex(idx, "d"), nv.BoolByIndex(idx, false), nv.FloatByIndex(idx, 1), nv.DoubleByIndex(idx, 2)
	case 4:
		what = "by path"
		_, _, _, _ = v.IntByPath(1, key, key), v.StringByPath("d", key), v.DoubleByPath(1, "a", key), v.BoolByPath(false, key)
		_, _ = v.DateTimeByPath(1, key), v.GoTimeByPath(time.Time{}, key, "0")
	case 5:
		what = "lookups"
		_, _, _ = nv.ValueByName(key), nv.Find(key), nv.ValueByPath(key, "0")
	case 6:
		what = "items"
		nv.Items(idx)
		_, _ = nv.ValueByIndex(idx), nv.KeyNameByIndex(idx)
	case 7:
		what = "Count/BinLen/..."
		_, _, _, _, _ = nv.Count(), nv.BinLen(), nv.BinExtType(), nv.Binary(), nv.Type()
	case 8:
		what = "Visit"
		k := 0
		stop := rapid.IntRange(0, 4).Draw(t, "stop")
		if n := len(nm.Kids); n > 4 && rapid.Bool().Draw(t, "stopLate") {
			stop = rapid.IntRange(4, n).Draw(t, "stopAt")
		}
		nv.Visit(func(key string, c *dx.DxValue) bool {
			k++
			return k <= stop
		})
	case 9:
		what = "Equal"
		nv.Equal(peer)
		peer.Equal(nv)
		nv.Equal(nv)
	case 10:
		what = "ToJson"
		nv.ToJson(rapid.Bool().Draw(t, "f"), pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape, dx.JSE_NoEscape), rapid.Bool().Draw(t, "d"), nil)
	case 11:
		what = "ToMsgPack"
		nv.ToMsgPack(nil)
	case 12:
		what = "ToBson"
		if nm.K == KObj {
			nv.ToBson(nil)
		}
	case 13:
		what = "Clone"
		w := nv.Clone(rapid.Bool().Draw(t, "c"))
		if !w.ReadOnly() {
			w.SetKeyInt("zzz", 5)
			w.Clear()
			if w.ValueCache() != nil {
				dx.FreeValue(w)
			}
		}
	case 14:
		what = "ToStdValue"
		switch rapid.IntRange(0, 4).Draw(t, "dest") {
		case 0:
			nv.ToStdValue(map[string]interface{}{}, false)
		case 1:
			var x interface{}
			nv.ToStdValue(&x, true)
		case 2:
			var x []interface{}
			nv.ToStdValue(&x, false)
		case 3:
			nv.ToStdValue(map[string]string{}, false)
		case 4:
			var x struct {
				A, B int
				Name string
			}
			nv.ToStdValue(&x, true)
		}
	case 15:
		what = "source of MergeWith"
		w := peer.Clone(false)
		if w.Type() == dx.VT_Object || w.Type() == dx.VT_Array {
			w.MergeWith(v, nil)
			w.MergeWith(v, func(string, *dx.DxValue, *dx.DxValue) dx.MergeOp { return dx.MO_Replace })
		}
	case 16:
		what = "source of CopyFrom and AddFrom"
		w := dx.NewValue(dx.VT_String)
		w.CopyFrom(nv, nil)
		w.AddFrom(nv, nil)
		if !w.ReadOnly() {
			w.Clear()
		}
	case 17:
		what = "Marshal"
		dx.Marshal(nv)
	}
	return what + " at " + path
}

func TestC27(t *testing.T) {
	run(t, "documents of every type and source in two identical instances; 1..25 random read-only calls on random nodes of the first (typed getters, lookups hit or missed, visits stopped early, comparisons, all encoders, clones edited afterwards, conversion to Go values, use as source of merge/copy); oracle: the untouched twin: same full reading by every route, same MsgPack and BSON bytes, same JSON meaning, Equal both ways, same extension types; non-trivial: at least 3 calls on a document with content",
		func(t *rapid.T, c *Case) {
			var m *M
			var mk func() (*dx.DxValue, error)
			cached, share := rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")
			seed := rapid.Uint64().Draw(t, "route")
			src := pick(t, "src", "build", "json", "msgpack", "bson", "yaml")
			switch src {
			case "build":
				m = drawTree(t, &treeOpts{kinds: allKinds, depth: 3, maxFan: 4, mid: true})
				mk = func() (*dx.DxValue, error) { return build(m, &rnd{s: seed}), nil }
			case "json":
				m = drawTree(t, &treeOpts{kinds: jsonKinds, depth: 3, maxFan: 4, mid: true})
				b := renderJSON(m, &rnd{s: seed})
				mk = func() (*dx.DxValue, error) { return dx.NewValueFromJson(append([]byte(nil), b...), cached, share) }
			case "msgpack":
				m = drawTree(t, &treeOpts{kinds: mpKinds, depth: 3, maxFan: 4, mid: true})
				fixExt(m)
				b := mpEncode(nil, m, &rnd{s: seed})
				mk = func() (*dx.DxValue, error) { return dx.NewValueFromMsgPack(append([]byte(nil), b...), cached, share) }
			case "bson":
				m = bsonTreeOf(t, &treeOpts{kinds: bsonKinds, depth: 3, wide: true, mid: true}, true)
				b := bsonEncode(nil, m, &rnd{s: seed})
				mk = func() (*dx.DxValue, error) { return dx.NewValueFromBson(append([]byte(nil), b...), cached, share) }
			case "yaml":
				var b []byte
				b, m, _ = drawYAML(t)
				mk = func() (*dx.DxValue, error) { return dx.NewValueFromYaml(b, cached) }
			}
			v, err := mk()
			if err != nil {
				t.Fatalf("source rejected: %v", err)
			}
			peerM := drawTree(t, &treeOpts{kinds: editKinds, depth: 2, maxFan: 3})
			peer := build(peerM, drawRnd(t, "peerRoute"))
			var log []string
			n := rapid.IntRange(1, 25).Draw(t, "reads")
			if rare(t, "longHistory", 8) {
				n = rapid.IntRange(100, 400).Draw(t, "manyReads")
				c.Class("hundreds of reads")
			}
			for i := 0; i < n; i++ {
				doing("%v", log)
				log = append(log, readSomething(t, v, m, peerM, peer))
			}
			twin, err := mk()
			if err != nil {
				t.Fatalf("source rejected the second time: %v", err)
			}
			fail := func(what, d string) {
				t.Fatalf("%s changed by reading: %s\nafter %s\non a %s document %s", what, d, strings.Join(log, ", "), src, m)
			}
			look := rapid.Uint64().Draw(t, "look")
			for k, order := 0, drawRnd(t, "order"); k < 5; k++ {
				switch (k + order.n(5)) % 5 {
				case 0:
					if d := diff(observe(twin, &rnd{s: look}), observe(v, &rnd{s: look}), cmpMode{}); d != "" {
						fail("the content", d)
					}
				case 1:
					if x, y := twin.ToMsgPack(nil), v.ToMsgPack(nil); !bytes.Equal(x, y) {
						fail("the MsgPack encoding", fmt.Sprintf("%x to %x", clip(string(x), 300), clip(string(y), 300)))
					}
				case 2:
					if m.K == KObj && twin.Type() == dx.VT_Object && v.Type() == dx.VT_Object {
						if x, y := twin.ToBson(nil), v.ToBson(nil); !bytes.Equal(x, y) {
							fail("the BSON encoding", fmt.Sprintf("%x to %x", clip(string(x), 300), clip(string(y), 300)))
						}
					}
				case 3:
					x, y := twin.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil), v.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil)
					if !bytes.Equal(x, y) {
						if d := diff(jsonMeaning(x), jsonMeaning(y), cmpMode{}); d != "" {
							fail("the JSON encoding", d)
						}
					}
				case 4:
					if !v.Equal(twin) || !twin.Equal(v) {
						fail("equality with an identical document", "no longer Equal")
					}
					if d := stampDiff2(twin, v); d != "" {
						fail("an extension type", d)
					}
				}
			}
			c.Class("from " + src)
			c.NonTrivial(n >= 3 && m.nodes() >= 2, fmt.Sprint(log), m.String())
			c.Sample(func() string { return strings.Join(log, ", ") + " on " + m.String() })
		})
}
