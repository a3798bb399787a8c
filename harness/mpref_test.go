package harness

import (
	"encoding/binary"
	"errors"
	"math"
	"time"
)

// ---------------------------------------------------------------------------
// Reference MsgPack codec, written from the specification.
// ---------------------------------------------------------------------------

var (
	errMpShort  = errors.New("truncated")
	errMpCode   = errors.New("invalid format code")
	errMpKey    = errors.New("map key is not a string")
	errMpBigInt = errors.New("integer beyond int64")
	errMpTime   = errors.New("malformed timestamp")
)

type mpDec struct {
	b     []byte
	soft  error // the object is well-formed but outside the supported domain
	items int
}

func (d *mpDec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.b) {
		return nil, errMpShort
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r, nil
}

func (d *mpDec) uint(n int) (uint64, error) {
	r, err := d.take(n)
	if err != nil {
		return 0, err
	}
	var x uint64
	for _, c := range r {
		x = x<<8 | uint64(c)
	}
	return x, nil
}

func (d *mpDec) strBody(n uint64, err error) (*M, error) {
	if err != nil {
		return nil, err
	}
	if n > uint64(len(d.b)) {
		return nil, errMpShort
	}
	r, err := d.take(int(n))
	return &M{K: KString, S: string(r)}, err
}

func (d *mpDec) binBody(n uint64, err error) (*M, error) {
	if err != nil {
		return nil, err
	}
	if n > uint64(len(d.b)) {
		return nil, errMpShort
	}
	r, err := d.take(int(n))
	return &M{K: KBin, Bin: append([]byte(nil), r...)}, err
}

func (d *mpDec) extBody(code byte, n uint64, err error) (*M, error) {
	if err != nil {
		return nil, err
	}
	if n+1 > uint64(len(d.b)) {
		return nil, errMpShort
	}
	tp, _ := d.take(1)
	r, err := d.take(int(n))
	if err != nil {
		return nil, err
	}
	if tp[0] == 0xff {
		var sec int64
		var ns uint64
		switch {
		case code == 0xd6:
			sec = int64(binary.BigEndian.Uint32(r))
		case code == 0xd7:
			x := binary.BigEndian.Uint64(r)
			ns, sec = x>>34, int64(x&(1<<34-1))
		case code == 0xc7 && n == 12:
			ns, sec = uint64(binary.BigEndian.Uint32(r)), int64(binary.BigEndian.Uint64(r[4:]))
		default: // not one of the three timestamp formats
			if n == 4 || n == 8 || n == 12 {
				d.soft = errMpTime
			}
			return &M{K: KExt, Ext: 0xff, Bin: append([]byte(nil), r...)}, nil
		}
		if f := ns % 1000000; f > 490000 && f < 510000 {
			d.soft = errMpTime // rounding to the millisecond could go either way
		}
		if ns > 999999999 || sec < -1<<40 || sec > 1<<40 {
			d.soft = errMpTime
			return &M{K: KTime}, nil
		}
		return &M{K: KTime, I: roundMs(time.Unix(sec, int64(ns)))}, nil
	}
	return &M{K: KExt, Ext: tp[0], Bin: append([]byte(nil), r...)}, nil
}

func (d *mpDec) arrBody(n uint64, err error) (*M, error) {
	if err != nil {
		return nil, err
	}
	m := &M{K: KArr}
	for ; n > 0; n-- {
		k, err := d.value()
		if err != nil {
			return nil, err
		}
		m.Kids = append(m.Kids, k)
	}
	return m, nil
}

func (d *mpDec) mapBody(n uint64, err error) (*M, error) {
	if err != nil {
		return nil, err
	}
	m := &M{K: KObj}
	for ; n > 0; n-- {
		k, err := d.value()
		if err != nil {
			return nil, err
		}
		if k.K != KString {
			d.soft = errMpKey
		}
		v, err := d.value()
		if err != nil {
			return nil, err
		}
		m.Keys = append(m.Keys, k.S)
		m.Kids = append(m.Kids, v)
	}
	return m, nil
}

func (d *mpDec) value() (*M, error) {
	h, err := d.take(1)
	if err != nil {
		return nil, err
	}
	c := h[0]
	sized := func(n int) (uint64, error) { return d.uint(n) }
	switch {
	case c <= 0x7f:
		return &M{K: KInt, I: int64(c)}, nil
	case c <= 0x8f:
		return d.mapBody(uint64(c&15), nil)
	case c <= 0x9f:
		return d.arrBody(uint64(c&15), nil)
	case c <= 0xbf:
		return d.strBody(uint64(c&31), nil)
	case c >= 0xe0:
		return &M{K: KInt, I: int64(int8(c))}, nil
	}
	switch c {
	case 0xc0:
		return &M{K: KNull}, nil
	case 0xc1:
		return nil, errMpCode
	case 0xc2, 0xc3:
		return &M{K: KBool, B: c == 0xc3}, nil
	case 0xc4:
		return d.binBody(sized(1))
	case 0xc5:
		return d.binBody(sized(2))
	case 0xc6:
		return d.binBody(sized(4))
	case 0xc7:
		n, err := sized(1)
		return d.extBody(c, n, err)
	case 0xc8:
		n, err := sized(2)
		return d.extBody(c, n, err)
	case 0xc9:
		n, err := sized(4)
		return d.extBody(c, n, err)
	case 0xca:
		x, err := d.uint(4)
		return &M{K: KFloat, F: float64(math.Float32frombits(uint32(x)))}, err
	case 0xcb:
		x, err := d.uint(8)
		return &M{K: KDouble, F: math.Float64frombits(x)}, err
	case 0xcc, 0xcd, 0xce, 0xcf:
		x, err := d.uint(1 << (c - 0xcc))
		if x > math.MaxInt64 {
			d.soft = errMpBigInt
		}
		return &M{K: KInt, I: int64(x)}, err
	case 0xd0:
		x, err := d.uint(1)
		return &M{K: KInt, I: int64(int8(x))}, err
	case 0xd1:
		x, err := d.uint(2)
		return &M{K: KInt, I: int64(int16(x))}, err
	case 0xd2:
		x, err := d.uint(4)
		return &M{K: KInt, I: int64(int32(x))}, err
	case 0xd3:
		x, err := d.uint(8)
		return &M{K: KInt, I: int64(x)}, err
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return d.extBody(c, 1<<(c-0xd4), nil)
	case 0xd9:
		return d.strBody(sized(1))
	case 0xda:
		return d.strBody(sized(2))
	case 0xdb:
		return d.strBody(sized(4))
	case 0xdc:
		return d.arrBody(sized(2))
	case 0xdd:
		return d.arrBody(sized(4))
	case 0xde:
		return d.mapBody(sized(2))
	case 0xdf:
		return d.mapBody(sized(4))
	}
	return nil, errMpCode
}

// mpDecode decodes one object. rest is what follows it; soft reports well-formed input outside the supported domain.
func mpDecode(b []byte) (m *M, rest []byte, soft, err error) {
	d := &mpDec{b: b}
	m, err = d.value()
	return m, d.b, d.soft, err
}

// mpEncode writes m, choosing among the equivalent representations with r (route 0: the shortest).
func mpEncode(dst []byte, m *M, r *rnd) []byte {
	// lenForm picks one of the admissible length sizes, the smallest first
	head := func(n int, fixMax int, fix byte, codes [3]byte) {
		var forms []int // -1 fix, 0,1,2: 8, 16, 32 bit
		if n <= fixMax {
			forms = append(forms, -1)
		}
		if codes[0] != 0 && n < 1<<8 {
			forms = append(forms, 0)
		}
		if n < 1<<16 {
			forms = append(forms, 1)
		}
		forms = append(forms, 2)
		switch f := forms[r.n(len(forms))]; f {
		case -1:
			dst = append(dst, fix|byte(n))
		case 0:
			dst = append(dst, codes[0], byte(n))
		case 1:
			dst = append(dst, codes[1], byte(n>>8), byte(n))
		case 2:
			dst = append(dst, codes[2], byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
	}
	ext := func(tp byte, b []byte) {
		n := len(b)
		if n == 1 || n == 2 || n == 4 || n == 8 || n == 16 {
			if r.n(2) == 0 {
				c := byte(0xd4)
				for k := 1; k < n; k *= 2 {
					c++
				}
				dst = append(append(dst, c, tp), b...)
				return
			}
		}
		head(n, -1, 0, [3]byte{0xc7, 0xc8, 0xc9})
		dst = append(append(dst, tp), b...)
	}
	str := func(s string) {
		head(len(s), 31, 0xa0, [3]byte{0xd9, 0xda, 0xdb})
		dst = append(dst, s...)
	}
	switch m.K {
	case KNull:
		dst = append(dst, 0xc0)
	case KBool:
		if m.B {
			dst = append(dst, 0xc3)
		} else {
			dst = append(dst, 0xc2)
		}
	case KInt:
		i := m.I
		var forms [][]byte
		be := func(c byte, n int) []byte {
			o := []byte{c}
			for k := n - 1; k >= 0; k-- {
				o = append(o, byte(uint64(i)>>(8*k)))
			}
			return o
		}
		if i >= -32 && i <= 127 {
			forms = append(forms, []byte{byte(i)})
		}
		if i >= 0 {
			for k, lim := range []int64{math.MaxUint8, math.MaxUint16, math.MaxUint32, math.MaxInt64} {
				if i <= lim {
					forms = append(forms, be(0xcc+byte(k), 1<<k))
				}
			}
		}
		for k, lim := range []int64{math.MaxInt8, math.MaxInt16, math.MaxInt32, math.MaxInt64} {
			if i <= lim && i >= -lim-1 {
				forms = append(forms, be(0xd0+byte(k), 1<<k))
			}
		}
		dst = append(dst, forms[r.n(len(forms))]...)
	case KFloat:
		dst = binary.BigEndian.AppendUint32(append(dst, 0xca), math.Float32bits(float32(m.F)))
	case KDouble:
		dst = binary.BigEndian.AppendUint64(append(dst, 0xcb), math.Float64bits(m.F))
	case KString:
		str(m.S)
	case KBin:
		head(len(m.Bin), -1, 0, [3]byte{0xc4, 0xc5, 0xc6})
		dst = append(dst, m.Bin...)
	case KExt:
		ext(m.Ext, m.Bin)
	case KTime:
		t := time.UnixMilli(m.I)
		sec, ns := t.Unix(), uint32(t.Nanosecond())
		var forms [][]byte
		if sec >= 0 && sec < 1<<32 && ns == 0 {
			forms = append(forms, binary.BigEndian.AppendUint32(nil, uint32(sec)))
		}
		if sec >= 0 && sec < 1<<34 {
			forms = append(forms, binary.BigEndian.AppendUint64(nil, uint64(ns)<<34|uint64(sec)))
		}
		forms = append(forms, binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint32(nil, ns), uint64(sec)))
		switch f := forms[r.n(len(forms))]; len(f) {
		case 4:
			dst = append(append(dst, 0xd6, 0xff), f...)
		case 8:
			dst = append(append(dst, 0xd7, 0xff), f...)
		case 12:
			dst = append(append(dst, 0xc7, 12, 0xff), f...)
		}
	case KObj:
		head(len(m.Kids), 15, 0x80, [3]byte{0, 0xde, 0xdf})
		for i, k := range m.Kids {
			str(m.Keys[i])
			dst = mpEncode(dst, k, r)
		}
	case KArr:
		head(len(m.Kids), 15, 0x90, [3]byte{0, 0xdc, 0xdd})
		for _, k := range m.Kids {
			dst = mpEncode(dst, k, r)
		}
	default:
		panic("harness: mpEncode of " + m.K.String())
	}
	return dst
}
