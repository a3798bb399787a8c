package harness

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// YAML: the text is written together with the document it denotes.
// ---------------------------------------------------------------------------

type yamlGen struct {
	t       *rapid.T
	b       strings.Builder
	nl      string
	names   []string // anchors defined so far, complete
	anchors map[string]*M
	defs    map[string]int
	budget  int
	deep    int  // levels still to be nested one inside the other
	bare    bool // no comment may follow on this line
	quiet   bool // no comment or blank line may stand before this line
	feat    map[string]bool
}

func (g *yamlGen) n(k int, l string) int { return rapid.IntRange(0, k-1).Draw(g.t, l) }

func yamlKey(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "keyHow") {
	case 4: // of any length
		k := fillStr(1+drawLen(t, "keyLen", false), 7)
		if rapid.Bool().Draw(t, "spaced") && len(k) > 4 {
			k = k[:2] + " " + k[2:]
		}
		return k
	case 0, 1:
		return pick(t, "key", "a", "b", "c", "d", "name", "Name", "x", "key1", "k", "host", "port", "default")
	case 2:
		return pick(t, "key", "a b", "http://x", "a:b", "a#b", "k-1", "-k", "中文", "é", "1", "2.5", "a/b", "a.b", "a,b", "<", "<<<", "x*", "true", "null", "a'b", "q\"q", "\\n", "\\u0041", "%41", "a&b")
	}
	return rapid.StringMatching("[a-zA-Z_][a-zA-Z0-9_]{0,9}").Draw(t, "key")
}

// yamlNum: a decimal spelling of the number.
func yamlNum(t *rapid.T) (string, *M) {
	if rapid.Bool().Draw(t, "int") {
		i := drawInt(t, "int")
		return strconv.FormatInt(i, 10), &M{K: KInt, I: i}
	}
	f := drawDouble(t, "f64")
	s := strconv.FormatFloat(f, pick(t, "fmt", byte('f'), 'e', 'g'), -1, 64)
	if f == 0 && math.Signbit(f) {
		return "0", &M{K: KInt}
	}
	if !strings.ContainsAny(s, ".eE") { // an integer spelling: exact when it fits int64
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return s, &M{K: KInt, I: i}
		}
	}
	return s, &M{K: KDouble, F: f}
}

func (g *yamlGen) plain() string {
	t := g.t
	switch g.n(5, "strHow") {
	case 0:
		return pick(t, "str", "x", "hello", "hello world", "a  b", "2h", "1.2.3", "2020-01-01", "10:20:30", "http://host:80/p?q=1", "a#b", "x:y", "True", "FALSE", "yes", "nan", "inf", "infinity", "0x1F", "1_000", "+", "--", "a-", "-a", "-1a", ".", "..", "e5", "1e", "12abc", "中文 字", "é", "𝄞", "<<", "a & b", "a * b", "a - b", "C:\\dir", "\\u0041", "100%", "%20", "a,b", "a]", "a}", "~x", "nullx", "truex", "Null", "(x)", "$x", "/Date(1000)/", "Date(5)")
	case 1:
		return rapid.StringMatching("[a-zA-Z][a-zA-Z0-9_./-]{0,12}").Draw(t, "str")
	case 2:
		return rapid.StringMatching("[a-z]{1,4}( [a-z]{1,3}){0,3}").Draw(t, "str")
	case 3:
		return fillStr(1+drawLen(t, "strLen", false), 2)
	}
	// arbitrary text made plain
	s := drawStr(t, "str", false)
	s = strings.Map(func(r rune) rune {
		switch {
		case r < ' ', r == 0x7f, r == 0x85, r == 0x2028, r == 0x2029, r == 0xfeff:
			return '_'
		}
		return r
	}, s)
	s = strings.ReplaceAll(s, ": ", "_")
	s = strings.ReplaceAll(s, " #", "_")
	s = strings.Trim(s, " :")
	for s != "" && strings.ContainsRune("-?:,[]{}#&*!|>'\"%@`", rune(s[0])) {
		s = strings.TrimLeft(s[1:], " ")
	}
	s = strings.ReplaceAll(s, ": ", "_")
	if s == "" || s == "~" || s == "null" || s == "true" || s == "false" || strings.Trim(s, "0123456789.eE+-") == "" {
		s = "s" + s
	}
	return s
}

func (g *yamlGen) scalar() (string, *M) {
	switch g.n(8, "scalar") {
	case 0:
		b := rapid.Bool().Draw(g.t, "bool")
		return strconv.FormatBool(b), &M{K: KBool, B: b}
	case 1, 2:
		return yamlNum(g.t)
	case 3:
		return pick(g.t, "null", "null", "~"), &M{K: KNull}
	}
	s := g.plain()
	return s, &M{K: KString, S: s}
}

// trail: what may follow the content of a line.
func (g *yamlGen) trail() string {
	s := ""
	switch g.n(8, "trail") {
	case 0:
		s = "  "
	case 1:
		if g.bare {
			break
		}
		s = pick(g.t, "comment", " # c", "   #", " # - x: y", " # a: *b", " #&x", " # c # d", " # x: 1 #", " ## e", " # \"q\" # 'r'")
		g.feat["comment"] = true
	}
	return s
}

func (g *yamlGen) line(indent int, s string) {
	for !g.quiet && g.n(10, "noise") == 9 {
		g.feat["comment or blank line"] = true
		switch g.n(4, "noiseKind") {
		case 0:
			g.b.WriteString(g.nl)
		case 1:
			g.b.WriteString(strings.Repeat(" ", g.n(8, "blanks")) + g.nl)
		case 2:
			g.b.WriteString(strings.Repeat(" ", g.n(8, "cIndent")) + "# comment: x" + g.nl)
		case 3:
			g.b.WriteString("#" + g.nl)
		}
	}
	g.b.WriteString(strings.Repeat(" ", indent) + s + g.trail() + g.nl)
}

// value draws what stands after "key:" or "-": text on the same line, or "" plus a block to be written below.
func (g *yamlGen) value(indent, depth int, write func(string), block func(k Kind) *M) *M {
	anchor := ""
	if g.n(5, "anchored") == 4 {
		anchor = pick(g.t, "anchor", "x", "y", "base", "x1", "x_y", "X", "Base", "anchor_of_some_length", "anchor_of_some_Length")
		g.defs[anchor]++
	}
	def := g.defs[anchor]
	var m *M
	switch k := g.n(6, "valueKind"); {
	case k == 0 && len(g.names) > 0 && g.deep == 0:
		g.feat["alias"] = true
		a := g.names[g.n(len(g.names), "alias")]
		write(" *" + a)
		return g.anchors[a].clone()
	case k <= 2 && depth > 0 && g.budget > 0 || g.deep > 0:
		if g.deep > 0 {
			g.deep--
		}
		if anchor != "" {
			write(" &" + anchor)
			g.feat["anchor on a block"] = true
			g.drop(anchor) // not usable inside its own block
		} else {
			write("")
		}
		m = block(pick(g.t, "block", KObj, KArr))
	case k == 3 && g.n(3, "empty") == 0:
		g.feat["no value"] = true
		if anchor != "" {
			write(" &" + anchor)
			g.drop(anchor)
		} else {
			write("")
		}
		m = &M{K: KNull}
	default:
		var s string
		s, m = g.scalar()
		more := 0 // further lines of a plain text
		if m.K == KString && g.n(8, "continued") == 7 {
			more = 1 + g.n(3, "moreLines")
			g.feat["scalar over several lines"] = true
		}
		below := g.n(12, "below") == 11 // the scalar starts on the next line
		g.bare = more > 0
		switch {
		case below:
			g.feat["scalar below its key"] = true
			if anchor != "" {
				write(" &" + anchor)
			} else {
				write("")
			}
			g.line(indent+1+g.n(4, "scalarIndent"), s)
		case anchor != "":
			g.feat["anchor on a scalar"] = true
			write(" &" + anchor + " " + s)
		default:
			write(pick(g.t, "gap", " ", " ", " ", "   ") + s)
		}
		for ; more > 0; more-- {
			part := g.plain()
			if g.n(4, "part") == 0 {
				part = pick(g.t, "odd", "12", "1.5", "true", "null", "~", "*x", "&x", "a", "-1", "[x", "{", "!x", "'a'", "\"q\"", "% x", "@", "`", ">", "|")
			}
			g.quiet, g.bare = true, more > 1
			g.line(indent+1+g.n(4, "moreIndent"), part)
			g.quiet = false
			m.S += " " + part
		}
		g.bare = false
	}
	if anchor != "" && g.defs[anchor] == def { // not redefined inside its own block
		g.drop(anchor)
		g.names = append(g.names, anchor)
		g.anchors[anchor] = m.clone()
	}
	return m
}

func (g *yamlGen) drop(name string) {
	for i, n := range g.names {
		if n == name {
			g.names = append(g.names[:i:i], g.names[i+1:]...)
			return
		}
	}
}

// mapping writes a block mapping at the given indent; first is what stands before its first key on the line.
func (g *yamlGen) mapping(indent, depth int, first string) *M {
	m := &M{K: KObj}
	explicit := map[string]bool{}
	n := 1 + g.n(4, "entries")
	if first == "" && depth > 0 && len(g.names) < 3 && chance(g.t, "wideBase", 25) { // a mapping of many keys to merge
		key, a := "wide base", "wide"
		g.line(indent, key+": &"+a)
		g.defs[a]++
		g.drop(a)
		base := &M{K: KObj}
		anchored := g.n(3, "manyAnchors") == 0
		for i := pick(g.t, "wide", 9, 16, 17, 25, 32, 33, 60, 130); i > 0; i-- {
			s, kid := g.scalar()
			k := fmt.Sprint("k", i)
			if anchored {
				name := fmt.Sprint("w", i)
				g.defs[name]++
				g.drop(name)
				g.line(indent+2, k+": &"+name+" "+s)
				g.names = append(g.names, name)
				g.anchors[name] = kid.clone()
			} else {
				g.line(indent+2, k+": "+s)
			}
			base.Keys, base.Kids = append(base.Keys, k), append(base.Kids, kid)
		}
		g.names = append(g.names, a)
		g.anchors[a] = base.clone()
		m.Keys, m.Kids = append(m.Keys, key), append(m.Kids, base)
		explicit[key] = true
		n++
		g.feat["anchored mapping of many keys"] = true
	}
	for i := 0; i < n; i++ {
		g.budget--
		lead, at := "", indent
		if i == 0 && first != "" {
			lead, at = first, indent-len(first)
		}
		wide := len(g.names) > 0 && g.names[len(g.names)-1] == "wide" && g.n(3, "mergeWide") == 0
		if len(g.names) > 0 && (wide || g.n(6, "merge") == 5) && lead == "" {
			a := g.names[g.n(len(g.names), "mergeOf")]
			if wide {
				a = "wide"
			}
			if src := g.anchors[a]; src.K == KObj {
				g.feat["merge"] = true
				g.line(at, "<<: *"+a)
				for j, k := range src.Keys {
					if m.keyIndex(k) < 0 {
						m.Keys = append(m.Keys, k)
						m.Kids = append(m.Kids, src.Kids[j].clone())
					}
				}
				if i > 0 || n > 1 {
					continue
				}
			}
		}
		key := yamlKey(g.t)
		if explicit[key] {
			key = fmt.Sprintf("%s%d", key, i)
			if explicit[key] {
				key = fmt.Sprintf("%s_%d", key, i)
			}
		}
		explicit[key] = true
		val := g.value(indent, depth-1, func(s string) { g.line(at, lead+key+":"+s) }, func(k Kind) *M {
			d := 1 + g.n(4, "indent")
			if k == KArr && g.n(3, "flush") == 0 {
				d = 0
				g.feat["sequence aligned with its key"] = true
			}
			return g.block(k, indent+d, depth-1)
		})
		if j := m.keyIndex(key); j >= 0 { // an explicit key after a merge
			m.Kids[j] = val
			g.feat["override of a merged key"] = true
		} else {
			m.Keys = append(m.Keys, key)
			m.Kids = append(m.Kids, val)
		}
	}
	return m
}

func (g *yamlGen) sequence(indent, depth int, first string) *M {
	m := &M{K: KArr}
	n := 1 + g.n(4, "items")
	for i := 0; i < n; i++ {
		g.budget--
		lead, at := "", indent
		if i == 0 && first != "" {
			lead, at = first, indent-len(first)
		}
		if (depth > 0 && g.budget > 0 || g.deep > 0) && g.n(3, "compact") == 0 {
			if g.deep > 0 {
				g.deep--
			}
			// "- key: v" or "- - v"
			g.feat["compact item"] = true
			dash := "-" + strings.Repeat(" ", pick(g.t, "dashGap", 1, 1, 1, 2, 3))
			var kid *M
			if g.n(3, "compactSeq") == 0 {
				kid = g.sequence(indent+len(dash), depth-1, lead+dash)
			} else {
				kid = g.mapping(indent+len(dash), depth-1, lead+dash)
			}
			m.Kids = append(m.Kids, kid)
			continue
		}
		m.Kids = append(m.Kids, g.value(indent, depth-1, func(s string) { g.line(at, lead+"-"+s) }, func(k Kind) *M {
			return g.block(k, indent+1+g.n(4, "indent"), depth-1)
		}))
	}
	return m
}

func (g *yamlGen) block(k Kind, indent, depth int) *M {
	if k == KArr {
		return g.sequence(indent, depth, "")
	}
	return g.mapping(indent, depth, "")
}

func drawYAML(t *rapid.T) (text []byte, m *M, feat map[string]bool) {
	g := &yamlGen{t: t, nl: "\n", anchors: map[string]*M{}, defs: map[string]int{}, budget: 25, feat: map[string]bool{}}
	if chance(t, "crlf", 4) {
		g.nl = "\r\n"
		g.feat["CRLF"] = true
	}
	if chance(t, "chain", 24) {
		g.deep = pick(t, "chainOf", 6, 8, 9, 16, 17, 31, 32, 33, 40, 65, 100)
		g.feat["deeply nested"] = true
	}
	m = g.block(pick(t, "rootKind", KObj, KObj, KArr), pick(t, "rootIndent", 0, 0, 0, 0, 2), rapid.IntRange(0, 4).Draw(t, "depth"))
	s := g.b.String()
	switch g.n(4, "end") {
	case 0:
		s = strings.TrimSuffix(s, g.nl)
		g.feat["no final newline"] = true
	case 1:
		s += g.nl + "  " + g.nl
	}
	return []byte(s), m, g.feat
}

func TestC10(t *testing.T) {
	run(t, "YAML block documents written together with their model: mappings and sequences nested up to 5 levels with random consistent indentation, compact `- key:` and `- -` items, sequences aligned with their key, plain scalars beside or below their key (numbers in every decimal spelling, booleans, null, odd strings, text continued over up to four lines), comments, blank lines, anchors on scalars and blocks, aliases, merge keys with later overrides, LF/CRLF, with and without final newline; decoded cached or not and by loading into a used value; oracle: the model; non-trivial: nesting >=2 or an anchor/alias/merge/comment",
		func(t *rapid.T, c *Case) {
			text, m, feat := drawYAML(t)
			in := append([]byte(nil), text...)
			doing("YAML %q", text)
			var v *dx.DxValue
			var err error
			how := rapid.IntRange(0, 3).Draw(t, "how")
			switch how {
			case 0, 1:
				v, err = dx.NewValueFromYaml(in, how == 1)
			default:
				v = usedValue(t)
				err = v.LoadFromYaml(in)
			}
			if err != nil {
				t.Fatalf("rejected: %v\n%s\nis %s", err, text, m)
			}
			if !bytes.Equal(in, text) {
				t.Fatalf("the input was modified")
			}
			for i := range in {
				in[i] = 0xee
			}
			if d := diff(m, observe(v, drawRnd(t, "look")), cmpMode{numeric: true}); d != "" {
				t.Fatalf("%s\n%s\nis %s\n%q", d, text, m, text)
			}
			for f := range feat {
				c.Class(f)
			}
			c.NonTrivial(m.depth() >= 3 || feat["alias"] || feat["merge"] || feat["comment"] || feat["anchor on a block"], text)
			c.Sample(func() string { return string(text) })
		})
}

var yamlTokens = func() (out [][]byte) {
	for _, s := range []string{"\n", "\r\n", " ", "  ", "-", "- ", ":", ": ", "#", " #", "&", "*", "&x", "*x", "<<", "<<: *x", "\t", "a", "1", "{", "}", "[", "]", "|", ">", "'", "\"", "---", "- - ", "\n- a: b", "\n  c: d", "\x00", "é", "\xff", "true", "null", "~", "a: &x\n", "k: *x\n", "...", "\r"} {
		out = append(out, []byte(s))
	}
	return
}()

func TestC11(t *testing.T) {
	run(t, "sequences of 2..6 texts (valid YAML, mutated and truncated YAML, random token soup, random bytes) parsed cached or not, by new value or load; oracle: every call returns a document or an error without panicking or hanging, a failed load leaves a usable value, and parsing the first text again after all the others gives the same outcome and the same document; non-trivial: at least one text fails or is not generated as valid, and one is parsed twice",
		func(t *rapid.T, c *Case) {
			if rare(t, "hostile", 10) {
				cached := rapid.Bool().Draw(t, "cached")
				b, how, accept, reject := drawDeep(t, c, yamlDeep)
				reject = false // "- " on its own is a null element
				if rapid.Bool().Draw(t, "aliases") {
					b, how, accept, reject = aliasBomb(t, c)
				}
				checkDeep(t, how, accept, reject, b, func(b []byte) (*dx.DxValue, error) { return dx.NewValueFromYaml(b, cached) },
					func(v *dx.DxValue, b []byte) error { return v.LoadFromYaml(b) })
				c.NonTrivial(true, how)
				c.Sample(func() string { return how })
				return
			}
			n := rapid.IntRange(2, 6).Draw(t, "texts")
			if rare(t, "longHistory", 8) {
				n = rapid.IntRange(40, 300).Draw(t, "manyTexts")
				c.Class("hundreds of texts")
			}
			var texts [][]byte
			for i := 0; i < n; i++ {
				var b []byte
				switch rapid.IntRange(0, 5).Draw(t, "textHow") {
				case 0:
					b, _, _ = drawYAML(t)
					c.Class("valid")
				case 1:
					b, _, _ = drawYAML(t)
					b = mutate(t, b, yamlTokens)
					c.Class("mutated")
				case 2:
					b, _, _ = drawYAML(t)
					b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
					c.Class("truncated")
				case 3, 4:
					for k := rapid.IntRange(0, 12).Draw(t, "toks"); k > 0; k-- {
						b = append(b, yamlTokens[rapid.IntRange(0, len(yamlTokens)-1).Draw(t, "tok")]...)
					}
					c.Class("token soup")
				case 5:
					b = rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "bytes")
					c.Class("random bytes")
				}
				texts = append(texts, b)
			}
			texts = append(texts, texts[0], texts[rapid.IntRange(0, n-1).Draw(t, "again")])
			type outcome struct {
				m   *M
				err string
			}
			seen := map[string]outcome{}
			fails := 0
			for i, b := range texts {
				doing("YAML texts %q, at %d", texts, i)
				in := append([]byte(nil), b...)
				var v *dx.DxValue
				var err error
				load := rapid.Bool().Draw(t, "load")
				if load {
					v = usedValue(t)
					err = v.LoadFromYaml(in)
				} else {
					v, err = dx.NewValueFromYaml(in, rapid.Bool().Draw(t, "cached"))
				}
				if !bytes.Equal(in, b) {
					t.Fatalf("the input %q was modified", b)
				}
				var o outcome
				if err != nil {
					o.err = err.Error()
					fails++
					if !load && v != nil {
						t.Fatalf("%q gives both a value and the error %v", b, err)
					}
					if load && rapid.Bool().Draw(t, "use") {
						stillUsable(t, v)
					}
				} else {
					if v == nil {
						t.Fatalf("%q gives neither a value nor an error", b)
					}
					o.m = observe(v, nil)
					v.ToJson(false, dx.JSE_OnlyAnsiChar, true, nil)
					v.ToMsgPack(nil)
				}
				if old, ok := seen[string(b)]; ok {
					if (old.m == nil) != (o.m == nil) {
						t.Fatalf("%q: earlier %v %s, now %v %s\nafter %q", b, old.err, old.m, o.err, o.m, texts[:i])
					}
					if o.m != nil {
						if d := diff(old.m, o.m, cmpMode{}); d != "" {
							t.Fatalf("%q now gives another document: %s\nafter %q", b, d, texts[:i])
						}
					}
				} else {
					seen[string(b)] = o
				}
				if rapid.Bool().Draw(t, "free") {
					dx.FreeValue(v)
				}
			}
			c.ClassIf(fails > 0, "some text rejected")
			c.NonTrivial(fails > 0, fmt.Sprintf("%q", texts))
			c.Sample(func() string { return fmt.Sprintf("%q", texts) })
		})
}
