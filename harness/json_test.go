package harness

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

var jsonKinds = []Kind{KNull, KBool, KInt, KInt, KDouble, KString, KString, KString}

func jsonTree(t *rapid.T) *M {
	return drawTree(t, &treeOpts{kinds: jsonKinds, depth: 4, wide: true, big: true})
}

func interestingJSON(m *M) bool {
	esc, num, nest := false, false, m.depth() >= 3
	m.walk(func(n *M) {
		for _, k := range n.Keys {
			if strings.ContainsAny(k, "\"\\\n\r\t\x00%/") {
				esc = true
			}
		}
		if n.K == KString && strings.ContainsAny(n.S, "\"\\\n\r\t\x00%/") {
			esc = true
		}
		if n.K == KDouble || n.K == KInt && (n.I > 1<<31 || n.I < -(1<<31)) {
			num = true
		}
	})
	return esc || num || nest
}

func TestC01(t *testing.T) {
	run(t, "document trees of every JSON type (boundary lengths, escapes, surrogates, 64-bit integers, doubles) spelled with random whitespace/escape/number forms; non-trivial: nested >=3 levels, or contains an escape-worthy character, a double, or an integer beyond 32 bits",
		func(t *rapid.T, c *Case) {
			m := jsonTree(t)
			text := renderJSON(m, drawRnd(t, "spelling"))
			std, err := stdJSON(text)
			if err != nil {
				panic(fmt.Sprintf("harness: rendered invalid JSON %q: %v", text, err))
			}
			if d := diff(m, std, cmpMode{numeric: true}); d != "" {
				panic("harness: renderer disagrees with encoding/json: " + d)
			}
			cached := rapid.Bool().Draw(t, "cached")
			share := rapid.Bool().Draw(t, "share")
			c.NonTrivial(interestingJSON(m), text)
			c.ClassIf(cached, "cached")
			c.ClassIf(share, "shared buffer")
			c.ClassIf(m.isContainer(), "container root")
			c.Sample(func() string { return string(text) })
			in := append([]byte(nil), text...)
			doing("NewValueFromJson(%q,%v,%v)", text, cached, share)
			v, err := dx.NewValueFromJson(in, cached, share)
			if err != nil {
				t.Fatalf("valid JSON rejected: %v\ntext: %q", err, text)
			}
			if v == nil {
				t.Fatalf("valid JSON gave nil value without error\ntext: %q", text)
			}
			// direct lookups before any full traversal
			if m.K == KObj && len(m.Keys) > 0 {
				i := rapid.IntRange(0, len(m.Keys)-1).Draw(t, "probe")
				got := v.ValueByName(m.Keys[i])
				if got == nil {
					t.Fatalf("key %q not found\ntext: %q", m.Keys[i], text)
				}
				if d := diff(m.Kids[i], observe(got, nil), cmpMode{numeric: true}); d != "" {
					t.Fatalf("lookup of key %q: %s\ntext: %q", m.Keys[i], d, text)
				}
			}
			if d := diff(m, observe(v, drawRnd(t, "look")), cmpMode{numeric: true}); d != "" {
				t.Fatalf("decoded document differs: %s\ntext: %q", d, clip(string(text), 2000))
			}
			if string(in) != string(text) {
				t.Fatalf("input buffer modified\ntext: %q\nnow:  %q", text, in)
			}
			if cached {
				dx.FreeValue(v)
			}
		})
}

// encodeSource builds the document by API calls, or by decoding it from another form, so that lazily decoded
// strings and keys take part.
func jsonSource(t *rapid.T, m *M) *dx.DxValue {
	switch rapid.IntRange(0, 2).Draw(t, "source") {
	case 0, 1:
		return build(m, drawRnd(t, "route"))
	}
	return jsonDecoded(t, m)
}

func jsonDecoded(t *rapid.T, m *M) *dx.DxValue {
	v, err := dx.NewValueFromJson(renderJSON(m, drawRnd(t, "spelling")), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share"))
	if err != nil {
		t.Fatalf("valid JSON rejected: %v", err)
	}
	if rapid.Bool().Draw(t, "peek") {
		observe(v, drawRnd(t, "look"))
	}
	return v
}

// plainText rewrites, in place, the strings and keys of m that JSON has to escape.
func plainText(m *M) *M {
	plain := func(s string) string {
		return strings.Map(func(r rune) rune {
			switch {
			case r == '"' || r == '\\':
				return '\''
			case r < 0x20:
				return ' '
			}
			return r
		}, s)
	}
	m.S = plain(m.S)
	seen := map[string]bool{}
	for i := range m.Keys {
		k := plain(m.Keys[i])
		for seen[k] {
			k += "'"
		}
		seen[k] = true
		m.Keys[i] = k
	}
	for _, x := range m.Kids {
		plainText(x)
	}
	return m
}

func TestC02(t *testing.T) {
	run(t, "document trees of every JSON type plus binaries, built by random API routes or decoded from JSON, encoded compact/formatted with both escaping styles after a random prefix; oracle: encoding/json; non-trivial: nested >=3 levels, or contains an escape-worthy character, a double, or an integer beyond 32 bits",
		func(t *rapid.T, c *Case) {
			kinds := append([]Kind{KFloat}, jsonKinds...)
			if rare(t, "hugeObject", 11) {
				checkHugeObject(t, c, "json")
				return
			}
			withBin := chance(t, "withBinaries", 4)
			style := pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape)
			prepare := func(m *M) *M { return m }
			if chance(t, "noEscape", 6) { // promises JSON only where nothing needs escaping
				style, prepare = dx.JSE_NoEscape, plainText
				c.Class("no-escape")
			}
			var m *M
			var v *dx.DxValue
			built := true // by the setters
			if withBin {
				if rapid.Bool().Draw(t, "bsonBinaries") { // object ids, decimals and subtypes from BSON
					m = prepare(bsonTree(t, bsonKinds, 3, true))
					var err error
					if v, err = dx.NewValueFromBson(bsonEncode(nil, m, drawRnd(t, "spelling")), rapid.Bool().Draw(t, "cached"), rapid.Bool().Draw(t, "share")); err != nil {
						t.Fatalf("BSON rejected: %v", err)
					}
					m = observe(v, nil)
					built = false
					c.Class("with BSON binaries")
				} else {
					m = prepare(drawTree(t, &treeOpts{kinds: append([]Kind{KBin, KExt, KTime}, kinds...), depth: 4, wide: true}))
					v = build(m, drawRnd(t, "route"))
				}
				c.Class("with binaries")
			} else {
				m = prepare(drawTree(t, &treeOpts{kinds: kinds, depth: 4, wide: true, big: true}))
				if built = rapid.IntRange(0, 2).Draw(t, "source") > 0; built {
					v = build(m, drawRnd(t, "route"))
				} else {
					v = jsonDecoded(t, m)
				}
			}
			num := cmpMode{numeric: true, textBin: true}
			format := rapid.Bool().Draw(t, "format")
			escDate := rapid.Bool().Draw(t, "escDate")
			prefix, dst := drawPrefix(t)
			doing("ToJson(%v,%v,%v) of %s", format, style, escDate, m)
			var out []byte
			switch {
			case chance(t, "marshal", 10):
				var err error
				if out, err = dx.Marshal(v); err != nil {
					t.Fatalf("Marshal: %v of %s", err, m)
				}
				prefix = nil
				built = false
				c.Class("Marshal")
			case rapid.Bool().Draw(t, "method"):
				out = v.ToJson(format, style, escDate, dst)
			case format:
				out = dx.Value2FormatJson(v, style, escDate, dst)
			default:
				out = dx.Value2Json(v, style, escDate, dst)
			}
			if len(out) < len(prefix) || string(out[:len(prefix)]) != string(prefix) {
				t.Fatalf("bytes already in dst not kept: %q, prefix %q", clip(string(out), 200), prefix)
			}
			out = out[len(prefix):]
			c.NonTrivial(interestingJSON(m), m.String(), fmt.Sprint(format, style))
			c.ClassIf(format, "formatted")
			c.ClassIf(style == dx.JSE_AllEscape, "all-escape")
			c.ClassIf(len(prefix) > 0, "prefix")
			c.Sample(func() string { return string(out) })
			if !json.Valid(out) {
				t.Fatalf("output is not valid JSON: %q\nof %s", clip(string(out), 2000), m)
			}
			if built && style == dx.JSE_AllEscape {
				for i, ch := range out {
					if ch >= 0x80 {
						t.Fatalf("escape-all output has the non-ASCII byte %#x at %d: %q", ch, i, clip(string(out), 2000))
					}
				}
			}
			std, err := stdJSON(out)
			if err != nil {
				t.Fatalf("output not decodable: %v: %q", err, clip(string(out), 2000))
			}
			if d := diff(m, std, num); d != "" {
				t.Fatalf("encoded document differs: %s\noutput: %q", d, clip(string(out), 2000))
			}
			back, err := dx.NewValueFromJson(out, false, false)
			if err != nil {
				t.Fatalf("own output rejected: %v: %q", err, clip(string(out), 2000))
			}
			if d := diff(m, observe(back, nil), num); d != "" {
				t.Fatalf("own output read back differs: %s\noutput: %q", d, clip(string(out), 2000))
			}
			// String() of containers is their (formatted) JSON as well
			if m.isContainer() && rapid.Bool().Draw(t, "viaString") {
				s := v.String()
				sm, err := stdJSON([]byte(s))
				if err != nil {
					t.Fatalf("String() of a container is not JSON: %v: %q", err, clip(s, 2000))
				}
				if d := diff(m, sm, num); d != "" {
					t.Fatalf("String() differs: %s\noutput: %q", d, clip(s, 2000))
				}
			}
		})
}

var jsonTokens = func() (out [][]byte) {
	for _, s := range []string{"{", "}", "[", "]", ":", ",", "\"", "\\", "\\\"", "\\u", "\\ud83d", "null", "nul", "nan", "NaN", "inf", "-inf", "+Inf", "true", "tru", "false", "fals", "n", "t", "f", "-", "+", ".", "e", "E", "1", "0", "01", "1.5", "1e5", "1e400", "99999999999999999999", " ", "\n", "\t", "\x00", "\v", "\f", "\xef\xbb\xbf", "//", "/*", "'", "\"a\"", "\"a\":", "{}", "[]", "\"/Date(", ")/\"", "\"/Date(1)/\"", "\"Date(-5+0800)\"", "\"Date()\"", "\x80", "\xff", "u", "N", "I"} {
		out = append(out, []byte(s))
	}
	return
}()

// draws a byte string near JSON
func nearJSON(t *rapid.T) ([]byte, string) {
	switch rapid.IntRange(0, 3).Draw(t, "near") {
	case 0:
		n := rapid.IntRange(0, 12).Draw(t, "n")
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, jsonTokens[rapid.IntRange(0, len(jsonTokens)-1).Draw(t, "tok")]...)
		}
		return b, "token soup"
	case 1:
		m := drawTree(t, &treeOpts{kinds: jsonKinds, depth: 3, maxFan: 3})
		return mutate(t, renderJSON(m, drawRnd(t, "spelling")), jsonTokens), "mutated document"
	case 2:
		m := drawTree(t, &treeOpts{kinds: jsonKinds, depth: 3, maxFan: 3})
		b := renderJSON(m, drawRnd(t, "spelling"))
		if len(b) == 0 {
			return b, "truncated document"
		}
		return b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")], "truncated document"
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "bytes"), "random bytes"
}

func TestC03(t *testing.T) {
	run(t, "token soups, byte-mutated and truncated JSON documents, random bytes; oracle: encoding/json says which texts must be accepted (and what they denote), a superset grammar of the reader's documented leniencies says which must be rejected; non-trivial: text that encoding/json rejects, or a mutated text it still accepts",
		func(t *rapid.T, c *Case) {
			cached := rapid.Bool().Draw(t, "cached")
			share := rapid.Bool().Draw(t, "share")
			if rare(t, "deep", 12) {
				b, how, accept, reject := drawDeep(t, c, jsonDeep)
				checkDeep(t, how, accept, reject, b, func(b []byte) (*dx.DxValue, error) { return dx.NewValueFromJson(b, cached, share) },
					func(v *dx.DxValue, b []byte) error { return v.LoadFromJson(b, share) })
				c.NonTrivial(true, how)
				c.Sample(func() string { return how })
				return
			}
			text, how := nearJSON(t)
			c.Class(how)
			strict := json.Valid(text)
			var std *M
			if strict {
				std, _ = stdJSON(text) // nil when a number is out of range
			}
			loose := lenientJSON(text)
			c.ClassIf(strict, "strictly valid")
			c.ClassIf(!strict && loose, "gray zone")
			c.ClassIf(!loose, "must reject")
			c.NonTrivial(!strict || how == "mutated document", text)
			c.Sample(func() string { return fmt.Sprintf("%s: %q", how, text) })
			in := append([]byte(nil), text...)
			doing("NewValueFromJson(%q,%v,%v)", text, cached, share)
			v, err := dx.NewValueFromJson(in, cached, share)
			if err != nil {
				if v != nil {
					t.Fatalf("error %v together with a value for %q", err, text)
				}
				_ = err.Error() // must be printable
				if std != nil {
					t.Fatalf("valid JSON rejected: %v: %q", err, text)
				}
			} else {
				if v == nil {
					t.Fatalf("neither value nor error for %q", text)
				}
				if !loose {
					t.Fatalf("malformed JSON accepted: %q -> %s", text, observe(v, nil))
				}
				got := observe(v, drawRnd(t, "look"))
				if std != nil && !hasDupKeys(std) && validStrings(text, std) {
					if d := diff(std, got, cmpMode{numeric: true}); d != "" {
						t.Fatalf("decoded document differs: %s\ntext: %q", d, text)
					}
				}
				// whatever was accepted can be written and stepped through again
				_ = v.ToJson(rapid.Bool().Draw(t, "format"), pick(t, "style", dx.JSE_OnlyAnsiChar, dx.JSE_AllEscape, dx.JSE_NoEscape), true, nil)
				_ = v.String()
			}
			if string(in) != string(text) {
				t.Fatalf("input buffer modified\ntext: %q\nnow:  %q", text, in)
			}
			// the same text loaded into an existing value
			dst := dx.NewObject(cached)
			dst.SetKeyInt("old", 1)
			doing("LoadFromJson(%q)", text)
			err2 := dst.LoadFromJson(append([]byte(nil), text...), share)
			if len(strings.Trim(string(text), " \t\r\n")) > 0 && (err2 == nil) != (err == nil) {
				t.Fatalf("NewValueFromJson says %v, LoadFromJson says %v for %q", err, err2, text)
			}
			if err2 != nil {
				_ = err2.Error()
			}
			dst.ToJson(true, dx.JSE_OnlyAnsiChar, false, nil) // still usable
			observe(dst, nil)
		})
}

// validStrings: encoding/json replaces invalid UTF-8 and lone surrogates; only compare texts without either,
// and without strings the reader documents as dates.
func validStrings(text []byte, m *M) bool {
	if strings.Contains(string(text), "\\u") && strings.Contains(strings.ToLower(string(text)), "\\ud") {
		return false
	}
	if strings.ToValidUTF8(string(text), "") != string(text) {
		return false
	}
	ok := true
	m.walk(func(n *M) {
		if n.K == KString && dateish(n.S) {
			ok = false
		}
	})
	return ok
}
