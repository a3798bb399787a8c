package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// JSON reference: encoding/json for reading; a renderer that picks freely among
// the equivalent spellings RFC 8259 allows.
// ---------------------------------------------------------------------------

// stdJSON parses text with encoding/json into a model tree, keeping key order.
func stdJSON(text []byte) (*M, error) {
	if !json.Valid(text) {
		return nil, errors.New("encoding/json: invalid")
	}
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	m, err := stdNode(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return m, nil
}

func numM(s string) (*M, error) {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return &M{K: KInt, I: i}, nil
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, err
	}
	return &M{K: KDouble, F: f}, nil
}

func stdNode(d *json.Decoder) (*M, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case nil:
		return &M{K: KNull}, nil
	case bool:
		return &M{K: KBool, B: x}, nil
	case json.Number:
		return numM(string(x))
	case string:
		return &M{K: KString, S: x}, nil
	case json.Delim:
		if x == '{' {
			m := &M{K: KObj}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				c, err := stdNode(d)
				if err != nil {
					return nil, err
				}
				m.Keys = append(m.Keys, k.(string))
				m.Kids = append(m.Kids, c)
			}
			_, err := d.Token()
			return m, err
		}
		m := &M{K: KArr}
		for d.More() {
			c, err := stdNode(d)
			if err != nil {
				return nil, err
			}
			m.Kids = append(m.Kids, c)
		}
		_, err := d.Token()
		return m, err
	}
	return nil, fmt.Errorf("token %v", tok)
}

// hasDupKeys reports whether any object of the tree repeats a key.
func hasDupKeys(m *M) bool {
	dup := false
	m.walk(func(n *M) {
		seen := map[string]bool{}
		for _, k := range n.Keys {
			if seen[k] {
				dup = true
			}
			seen[k] = true
		}
	})
	return dup
}

func ws(r *rnd) string {
	switch r.n(8) {
	case 1:
		return " "
	case 2:
		return "\n"
	case 3:
		return "\t \r\n"
	case 4:
		if r.n(400) == 7 { // a long run of them
			return strings.Repeat([]string{" ", "\n", "\t", "\r\n"}[r.n(4)], []int{60, 130, 260, 1030, 4100, 9000, 66000}[r.n(7)])
		}
	}
	return ""
}

// renderJSON writes m as JSON text; r picks whitespace, escapes and number spellings.
func renderJSON(m *M, r *rnd) []byte {
	var b bytes.Buffer
	b.WriteString(ws(r))
	renderNode(&b, m, r)
	b.WriteString(ws(r))
	return b.Bytes()
}

func renderStr(b *bytes.Buffer, s string, r *rnd) {
	b.WriteByte('"')
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		mode := 0
		if len(s) < 6000 {
			mode = r.n(4)
		}
		switch {
		case c == '"' || c == '\\':
			if mode == 1 {
				fmt.Fprintf(b, "\\u%04x", c)
			} else {
				b.WriteByte('\\')
				b.WriteByte(byte(c))
			}
		case c < 0x20:
			k := strings.IndexByte("\b\f\n\r\t", byte(c))
			if k >= 0 && mode != 1 {
				b.WriteByte('\\')
				b.WriteByte("bfnrt"[k])
			} else {
				fmt.Fprintf(b, "\\u%04X", c)
			}
		case c == '/' && mode == 2:
			b.WriteString("\\/")
		case mode == 1:
			if c > 0xffff {
				h, l := utf16.EncodeRune(c)
				fmt.Fprintf(b, "\\u%04x\\u%04X", h, l)
			} else {
				fmt.Fprintf(b, "\\u%04x", c)
			}
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	b.WriteByte('"')
}

func renderFloat(f float64, r *rnd) string {
	var s string
	switch r.n(5) {
	case 0, 1:
		s = strconv.FormatFloat(f, 'g', -1, 64)
	case 2:
		s = strconv.FormatFloat(f, 'f', -1, 64)
	case 3:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	case 4:
		s = strconv.FormatFloat(f, 'E', 20, 64)
	}
	if r.n(6) == 5 && strings.ContainsRune(s, '.') && !strings.ContainsAny(s, "eE") {
		s += "00"
	}
	if r.n(150) == 149 { // written at length
		zeros := strings.Repeat("0", []int{17, 40, 80, 140, 270, 420, 1100, 5000}[r.n(8)])
		switch i := strings.IndexAny(s, "eE"); {
		case i < 0 && strings.ContainsRune(s, '.'):
			s += zeros
		case i > 0 && r.n(2) == 0: // in front of the digits of the exponent
			j := i + 1
			if s[j] == '-' || s[j] == '+' {
				j++
			}
			s = s[:j] + zeros + s[j:]
		case i > 0 && strings.ContainsRune(s[:i], '.'):
			s = s[:i] + zeros + s[i:]
		case i > 0:
			s = s[:i] + "." + zeros + s[i:]
		}
	}
	return s
}

func renderNode(b *bytes.Buffer, m *M, r *rnd) {
	switch m.K {
	case KNull:
		b.WriteString("null")
	case KBool:
		b.WriteString(strconv.FormatBool(m.B))
	case KInt:
		b.WriteString(strconv.FormatInt(m.I, 10))
	case KFloat, KDouble:
		b.WriteString(renderFloat(m.F, r))
	case KString:
		renderStr(b, m.S, r)
	case KObj:
		b.WriteByte('{')
		for i, k := range m.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(ws(r))
			renderStr(b, k, r)
			b.WriteString(ws(r))
			b.WriteByte(':')
			b.WriteString(ws(r))
			renderNode(b, m.Kids[i], r)
			b.WriteString(ws(r))
		}
		if len(m.Keys) == 0 {
			b.WriteString(ws(r))
		}
		b.WriteByte('}')
	case KArr:
		b.WriteByte('[')
		for i, k := range m.Kids {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(ws(r))
			renderNode(b, k, r)
			b.WriteString(ws(r))
		}
		if len(m.Kids) == 0 {
			b.WriteString(ws(r))
		}
		b.WriteByte(']')
	}
}

// ---------------------------------------------------------------------------
// The lenient grammar: a superset of everything the reader may accept (RFC 8259
// plus the leniencies the reader is known for: raw control characters and
// unknown escapes in strings, leading zeros / '+' / bare '.' in numbers,
// nan / inf words with an optional sign). Outside it, text must be rejected.
// ---------------------------------------------------------------------------

func lenientJSON(b []byte) bool {
	p := lenient{b: b}
	p.ws()
	if !p.value(0) {
		return false
	}
	p.ws()
	return p.i == len(b)
}

type lenient struct {
	b []byte
	i int
}

func (p *lenient) ws() {
	for p.i < len(p.b) && strings.IndexByte(" \t\r\n", p.b[p.i]) >= 0 {
		p.i++
	}
}

func (p *lenient) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *lenient) str() bool {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return false
	}
	p.i++
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case '\\':
			p.i += 2
		case '"':
			p.i++
			return true
		default:
			p.i++
		}
	}
	return false
}

func (p *lenient) value(depth int) bool {
	if p.i >= len(p.b) {
		return false
	}
	switch p.b[p.i] {
	case '{':
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return true
		}
		for {
			p.ws()
			if !p.str() {
				return false
			}
			p.ws()
			if !p.lit(":") {
				return false
			}
			p.ws()
			if !p.value(depth + 1) {
				return false
			}
			p.ws()
			if p.lit("}") {
				return true
			}
			if !p.lit(",") {
				return false
			}
		}
	case '[':
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return true
		}
		for {
			p.ws()
			if !p.value(depth + 1) {
				return false
			}
			p.ws()
			if p.lit("]") {
				return true
			}
			if !p.lit(",") {
				return false
			}
		}
	case '"':
		return p.str()
	case 't':
		return p.lit("true")
	case 'f':
		return p.lit("false")
	}
	if p.lit("null") {
		return true
	}
	j := p.i
	if p.b[j] == '+' || p.b[j] == '-' {
		j++
	}
	if j+3 <= len(p.b) {
		w := strings.ToLower(string(p.b[j : j+3]))
		if w == "nan" || w == "inf" {
			p.i = j + 3
			return true
		}
	}
	j = p.i
	for j < len(p.b) && strings.IndexByte("0123456789+-.eE", p.b[j]) >= 0 {
		j++
	}
	tok := string(p.b[p.i:j])
	p.i = j
	if _, err := strconv.ParseFloat(tok, 64); err != nil && !errors.Is(err, strconv.ErrRange) {
		return false
	}
	return true
}

// ---------------------------------------------------------------------------
// Byte-level mutation of an encoded document.
// ---------------------------------------------------------------------------

func mutate(t *rapid.T, b []byte, tokens [][]byte) []byte {
	b = append([]byte(nil), b...)
	n := rapid.IntRange(1, 3).Draw(t, "mutations")
	for ; n > 0; n-- {
		at := 0
		if len(b) > 0 {
			at = rapid.IntRange(0, len(b)-1).Draw(t, "at")
		}
		switch rapid.IntRange(0, 6).Draw(t, "mut") {
		case 0: // truncate
			b = b[:at]
		case 1: // delete
			if len(b) > 0 {
				b = append(b[:at], b[at+1:]...)
			}
		case 2: // overwrite
			if len(b) > 0 {
				b[at] = rapid.Byte().Draw(t, "byte")
			}
		case 3: // insert byte
			x := rapid.Byte().Draw(t, "byte")
			b = append(b[:at], append([]byte{x}, b[at:]...)...)
		case 4: // insert / overwrite with a token
			tok := tokens[rapid.IntRange(0, len(tokens)-1).Draw(t, "tok")]
			if rapid.Bool().Draw(t, "over") && at+len(tok) <= len(b) {
				copy(b[at:], tok)
			} else {
				b = append(b[:at], append(append([]byte(nil), tok...), b[at:]...)...)
			}
		case 5: // duplicate a slice
			if len(b) > 0 {
				end := min(len(b), at+rapid.IntRange(1, 8).Draw(t, "len"))
				dup := append([]byte(nil), b[at:end]...)
				b = append(b[:end], append(dup, b[end:]...)...)
			}
		case 6: // remove a slice
			if len(b) > 0 {
				end := min(len(b), at+rapid.IntRange(1, 8).Draw(t, "len"))
				b = append(b[:at], b[end:]...)
			}
		}
	}
	return b
}
