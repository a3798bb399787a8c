package harness

import (
	"bytes"
	"fmt"

	dx "github.com/suiyunonghen/dxsvalue"
	"pgregory.net/rapid"
)

// Inputs that cost a recursive or copying reader far more than their size: nesting by the million, aliases of aliases.

// deepest nesting every reader must take; beyond it a document may be refused, but nothing worse may happen
const deepest = 10000

// deepForm: one level, what may stand inside the innermost ("" if the form cannot be completed) and what ends a level.
type deepForm struct {
	open, leaf, close string
	leafLevels        int
	enough            int // levels that overflow an unprotected reader's stack, if 6 million do not
}

// drawDeep: a document nested in the given way and whether it must be accepted, must be rejected, or either.
func drawDeep(t *rapid.T, c *Case, forms []deepForm) (b []byte, how string, accept, reject bool) {
	f := forms[rapid.IntRange(0, len(forms)-1).Draw(t, "form")]
	n := pick(t, "levels", 1, 9, 100, 1000, deepest-1, deepest, deepest+1, 100000, 1000000, 6000000, 6000000)
	if n == 6000000 {
		n = max(n, f.enough)
	}
	b = bytes.Repeat([]byte(f.open), n)
	complete := f.leaf != "" && rapid.Bool().Draw(t, "complete")
	if complete {
		b = append(b, f.leaf...)
		b = append(b, bytes.Repeat([]byte(f.close), n)...)
	}
	c.Class("nesting")
	c.ClassIf(n > deepest, "nesting beyond the limit")
	return b, fmt.Sprintf("%q nested %d times, complete %v", f.open, n, complete), complete && n+f.leafLevels <= deepest, !complete
}

// checkDeep: both ways of decoding agree and neither does worse than refuse.
func checkDeep(t *rapid.T, how string, accept, reject bool, b []byte, fresh func(b []byte) (*dx.DxValue, error), load func(v *dx.DxValue, b []byte) error) {
	doing("decoding %s", how)
	v, err := fresh(b)
	if err == nil && v == nil {
		t.Fatalf("%s: neither value nor error", how)
	}
	if accept && err != nil {
		t.Fatalf("%s: rejected: %v", how, err)
	}
	if reject && err == nil {
		t.Fatalf("%s: accepted", how)
	}
	dst := usedValue(t)
	doing("loading %s", how)
	err2 := load(dst, b)
	if (err2 == nil) != (err == nil) {
		t.Fatalf("%s: decoding says %v, loading %v", how, err, err2)
	}
	if err2 != nil {
		stillUsable(t, dst)
		return
	}
	if !v.Equal(dst) {
		t.Fatalf("%s: decoding and loading give different documents", how)
	}
}

var jsonDeep = []deepForm{{"[", "[]", "]", 1, 0}, {`{"":`, "{}", "}", 1, 0}, {"[", "1", "]", 0, 0}, {"[\r\n ", "[]", "]", 1, 0}, {`[{"k":`, "", "", 0, 0}}

var mpDeep = []deepForm{{"\x91", "\xc0", "", 0, 0}, {"\x81\xa0", "\x90", "", 1, 0}, {"\xdd\x00\x00\x00\x01", "\xa1a", "", 0, 0},
	{"\xdf\xff\xff\xff\xff\xa1k", "", "", 0, 0}, {"\xdc\xff\xff", "", "", 0, 0}}

var yamlDeep = []deepForm{{"- ", "x", "", 0, 12000000}, {"-  ", "k: v", "", 1, 12000000}}

// deepBson: documents within documents (or arrays), all lengths right unless cut.
func deepBson(t *rapid.T, c *Case) (b []byte, how string, accept, reject bool) {
	n := pick(t, "levels", 1, 9, 100, 1000, deepest-2, deepest-1, deepest, 100000, 1000000, 6000000, 6000000)
	arr := rapid.Bool().Draw(t, "arrays")
	total := 5 + 7*n
	if arr {
		total = 5 + 8*n
	}
	b = make([]byte, 0, total)
	for i, l := 0, total; i < n; i++ {
		b = append(b, byte(l), byte(l>>8), byte(l>>16), byte(l>>24))
		switch {
		case !arr:
			b = append(b, 3, 0)
			l -= 7
		default:
			b = append(b, 4, '0', 0)
			l -= 8
		}
	}
	b = append(b, 5, 0, 0, 0, 0)
	b = append(b, make([]byte, n)...)
	cut := rapid.Bool().Draw(t, "cut")
	if cut {
		b = b[:len(b)-1]
	}
	how = fmt.Sprintf("BSON nested %d times (arrays %v, cut %v)", n, arr, cut)
	c.Class("nesting")
	c.ClassIf(n > deepest, "nesting beyond the limit")
	return b, how, !cut && n < deepest, cut
}

// aliasBomb: each line doubles the one before it.
func aliasBomb(t *rapid.T, c *Case) (b []byte, how string, accept, reject bool) {
	n := pick(t, "doublings", 1, 5, 10, 14, 22)
	merge := rapid.Bool().Draw(t, "merge")
	b = append(b, "a0: &a0\n  k: x\n"...)
	for i := 1; i <= n; i++ {
		if merge {
			b = append(b, fmt.Sprintf("a%d: &a%d\n  <<: *a%d\n  l%d: *a%d\n", i, i, i-1, i, i-1)...)
		} else {
			b = append(b, fmt.Sprintf("a%d: &a%d\n  - *a%d\n  - *a%d\n", i, i, i-1, i-1)...)
		}
	}
	how = fmt.Sprintf("%d doublings by aliases, merge keys %v", n, merge)
	c.Class("alias expansion")
	return b, how, n <= 14, n >= 22
}
