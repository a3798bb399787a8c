package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Reference BSON codec, written from the specification (bsonspec.org 1.1).
// In the model: KBin with Ext 0 is a generic binary, Ext 7 an object id, Ext 0x13 a decimal128;
// KExt is a binary with subtype Ext; KInt with Ext 0x11 is a timestamp.
// ---------------------------------------------------------------------------

var (
	errBsonShort = errors.New("truncated")
	errBsonForm  = errors.New("malformed")
	errBsonType  = errors.New("unsupported element type")
	errBsonIndex = errors.New("array keys are not the indexes")
	errBsonName  = errors.New("array element named by something that is not a number")
	errBsonSoft  = errors.New("outside the asserted domain")
)

type bsonDec struct{ soft error }

func bsonDecode(b []byte) (m *M, rest []byte, soft, err error) {
	d := &bsonDec{}
	m, n, err := d.doc(b, false)
	if err != nil {
		return nil, nil, d.soft, err
	}
	return m, b[n:], d.soft, nil
}

func (d *bsonDec) doc(b []byte, arr bool) (*M, int, error) {
	if len(b) < 5 {
		return nil, 0, errBsonShort
	}
	n := int(int32(binary.LittleEndian.Uint32(b)))
	if n < 5 {
		return nil, 0, errBsonForm
	}
	if n > len(b) {
		return nil, 0, errBsonShort
	}
	b = b[:n]
	m := &M{K: KObj}
	if arr {
		m.K = KArr
	}
	p := 4
	for {
		if p >= n {
			return nil, 0, errBsonForm
		}
		tp := b[p]
		p++
		if tp == 0 {
			if p != n {
				return nil, 0, errBsonForm
			}
			return m, n, nil
		}
		e := bytes.IndexByte(b[p:], 0)
		if e < 0 {
			return nil, 0, errBsonForm
		}
		key := string(b[p : p+e])
		p += e + 1
		v, used, err := d.elem(tp, b[p:])
		if err != nil {
			return nil, 0, err
		}
		p += used
		if arr {
			if key == "" || strings.ContainsAny(key, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") {
				return nil, 0, errBsonName
			}
			if key != strconv.Itoa(len(m.Kids)) {
				d.soft = errBsonIndex
			}
		} else {
			m.Keys = append(m.Keys, key)
		}
		m.Kids = append(m.Kids, v)
	}
}

func (d *bsonDec) elem(tp byte, b []byte) (*M, int, error) {
	need := func(n int) bool { return len(b) >= n }
	switch tp {
	case 0x01:
		if !need(8) {
			return nil, 0, errBsonShort
		}
		return &M{K: KDouble, F: math.Float64frombits(binary.LittleEndian.Uint64(b))}, 8, nil
	case 0x02:
		if !need(5) {
			return nil, 0, errBsonShort
		}
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 1 || n > len(b)-4 || b[4+n-1] != 0 {
			return nil, 0, errBsonForm
		}
		return &M{K: KString, S: string(b[4 : 4+n-1])}, 4 + n, nil
	case 0x03, 0x04:
		return d.doc(b, tp == 0x04)
	case 0x05:
		if !need(5) {
			return nil, 0, errBsonShort
		}
		n := int(int32(binary.LittleEndian.Uint32(b)))
		if n < 0 || n > len(b)-5 {
			return nil, 0, errBsonForm
		}
		sub, body := b[4], append([]byte(nil), b[5:5+n]...)
		if sub == 2 {
			if n < 4 || int(int32(binary.LittleEndian.Uint32(body))) != n-4 {
				return nil, 0, errBsonForm
			}
			return &M{K: KBin, Bin: body[4:]}, 5 + n, nil
		}
		if sub == 0 {
			return &M{K: KBin, Bin: body}, 5 + n, nil
		}
		return &M{K: KExt, Ext: sub, Bin: body}, 5 + n, nil
	case 0x07:
		if !need(12) {
			return nil, 0, errBsonShort
		}
		return &M{K: KBin, Ext: 7, Bin: append([]byte(nil), b[:12]...)}, 12, nil
	case 0x08:
		if !need(1) {
			return nil, 0, errBsonShort
		}
		if b[0] > 1 {
			d.soft = errBsonSoft
		}
		return &M{K: KBool, B: b[0] == 1}, 1, nil
	case 0x09:
		if !need(8) {
			return nil, 0, errBsonShort
		}
		return &M{K: KTime, I: int64(binary.LittleEndian.Uint64(b))}, 8, nil
	case 0x0a:
		return &M{K: KNull}, 0, nil
	case 0x06, 0xff, 0x7f: // undefined, min key, max key: no content
		d.soft = errBsonSoft
		return &M{K: KNull}, 0, nil
	case 0x10:
		if !need(4) {
			return nil, 0, errBsonShort
		}
		return &M{K: KInt, I: int64(int32(binary.LittleEndian.Uint32(b)))}, 4, nil
	case 0x11, 0x12:
		if !need(8) {
			return nil, 0, errBsonShort
		}
		m := &M{K: KInt, I: int64(binary.LittleEndian.Uint64(b))}
		if tp == 0x11 {
			m.Ext = 0x11
		}
		return m, 8, nil
	case 0x13:
		if !need(16) {
			return nil, 0, errBsonShort
		}
		return &M{K: KBin, Ext: 0x13, Bin: append([]byte(nil), b[:16]...)}, 16, nil
	}
	return nil, 0, errBsonType
}

func le32(dst []byte, n int) []byte { return binary.LittleEndian.AppendUint32(dst, uint32(n)) }

// bsonEncode writes an object or array document; r picks among equivalent representations.
func bsonEncode(dst []byte, m *M, r *rnd) []byte {
	at := len(dst)
	dst = append(dst, 0, 0, 0, 0)
	for i, k := range m.Kids {
		tpAt := len(dst)
		dst = append(dst, 0)
		if m.K == KArr {
			dst = strconv.AppendInt(dst, int64(i), 10)
		} else {
			dst = append(dst, m.Keys[i]...)
		}
		dst = append(dst, 0)
		var tp byte
		switch k.K {
		case KNull:
			tp = 0x0a
		case KBool:
			tp = 0x08
			if k.B {
				dst = append(dst, 1)
			} else {
				dst = append(dst, 0)
			}
		case KInt:
			switch {
			case k.Ext == 0x11:
				tp = 0x11
				dst = binary.LittleEndian.AppendUint64(dst, uint64(k.I))
			case k.I >= math.MinInt32 && k.I <= math.MaxInt32 && r.n(2) == 0:
				tp = 0x10
				dst = binary.LittleEndian.AppendUint32(dst, uint32(int32(k.I)))
			default:
				tp = 0x12
				dst = binary.LittleEndian.AppendUint64(dst, uint64(k.I))
			}
		case KFloat, KDouble:
			tp = 0x01
			dst = binary.LittleEndian.AppendUint64(dst, math.Float64bits(k.F))
		case KTime:
			tp = 0x09
			dst = binary.LittleEndian.AppendUint64(dst, uint64(k.I))
		case KString:
			tp = 0x02
			dst = append(append(le32(dst, len(k.S)+1), k.S...), 0)
		case KBin:
			switch {
			case k.Ext == 7 || k.Ext == 0x13:
				tp = k.Ext
				dst = append(dst, k.Bin...)
			case r.n(3) == 1: // old binary subtype
				tp = 0x05
				dst = append(le32(dst, len(k.Bin)+4), 2)
				dst = append(le32(dst, len(k.Bin)), k.Bin...)
			default:
				tp = 0x05
				dst = append(append(le32(dst, len(k.Bin)), 0), k.Bin...)
			}
		case KExt:
			tp = 0x05
			dst = append(append(le32(dst, len(k.Bin)), k.Ext), k.Bin...)
		case KObj:
			tp = 0x03
			dst = bsonEncode(dst, k, r)
		case KArr:
			tp = 0x04
			dst = bsonEncode(dst, k, r)
		default:
			panic("harness: bsonEncode of " + k.K.String())
		}
		dst[tpAt] = tp
	}
	dst = append(dst, 0)
	binary.LittleEndian.PutUint32(dst[at:], uint32(len(dst)-at))
	return dst
}
