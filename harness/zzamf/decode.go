// Package zzamf specifies the AMF decoders.
package zzamf

import (
	"bytes"
	"encoding/binary"
	"io"
	"math"

	"github.com/moggle-mog/goav/amf"
	. "github.com/moggle-mog/goav/zzv"
)

// nested values are read by contract: some bytes, at least one, denote some value.
//
//contract (*amf.EnDecAMF0).Decode
func decode0(ed *amf.EnDecAMF0, r io.Reader) (interface{}, error) {
	if plain {
		return ed.Decode(r)
	}
	Grow(ed)
	deeper(Level(ed))
	return nested(r)
}

//contract (*amf.EnDecAMF3).Decode
func decode3(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
	if plain {
		return ed.Decode(r)
	}
	Grow(ed)
	deeper(Level(ed))
	return nested(r)
}

var torn bool  // a read failed
var lack bool  // a read asked for more than there was
var plain bool // nested values are decoded by the code itself
var ended bool // a nested decode met the end of the input before its first byte
var count int  // nested decodes that succeeded
var broken bool

var outer int // the nesting level outside the value being decoded
var open bool // whether nested decodes are part of that value

// deeper: a nested value is at a greater level, and the levels are bounded.
func deeper(level int) {
	if open {
		Check(level > outer, "A13: a nested value is one level deeper")
		Check(level <= 1<<16, "A13: nesting is bounded")
	}
}

func nested(r io.Reader) (interface{}, error) {
	b := r.(*bytes.Reader)
	if b.Len() == 0 {
		ended = true
		return nil, io.EOF
	}
	n := AnyLen()
	Assume(n >= 1)
	if AnyBool() || n > b.Len() {
		broken = true
		_, err := io.ReadFull(b, make([]byte, n))
		if err == nil || err == io.EOF {
			return nil, AnyError()
		}
		return nil, io.ErrUnexpectedEOF
	}
	if _, err := io.ReadFull(b, make([]byte, n)); err != nil {
		broken = true
		return nil, err
	}
	count++
	return AnyValue(), nil
}

// u29 is the meaning of the variable-length integer at the start of b: its value and size, 0 if incomplete.
func u29(b []byte) (uint32, int) {
	if len(b) < 1 {
		return 0, 0
	}
	if b[0] < 0x80 {
		return uint32(b[0]), 1
	}
	if len(b) < 2 {
		return 0, 0
	}
	if b[1] < 0x80 {
		return uint32(b[0]&0x7f)<<7 | uint32(b[1]), 2
	}
	if len(b) < 3 {
		return 0, 0
	}
	if b[2] < 0x80 {
		return uint32(b[0]&0x7f)<<14 | uint32(b[1]&0x7f)<<7 | uint32(b[2]), 3
	}
	if len(b) < 4 {
		return 0, 0
	}
	return uint32(b[0]&0x7f)<<22 | uint32(b[1]&0x7f)<<15 | uint32(b[2]&0x7f)<<8 | uint32(b[3]), 4
}

// same: x has these bits.
func same(x float64, b []byte) bool { return math.Float64bits(x) == binary.BigEndian.Uint64(b) }

// Integer: an AMF3 integer is the U29 after its marker.
func Integer() {
	in := AnyBytes()
	Assume(len(in) >= 1)
	in[0] = 4
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	v, err := amf.NewEnDecAMF3().Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	w, n := u29(in[1:])
	if n == 0 {
		Check(err != nil, "A05: an incomplete integer is an error")
		return
	}
	Check(err == nil, "A05: a complete integer is accepted")
	x, ok := v.(uint32)
	Check(ok && x == w, "A05: the value is the one the bytes denote")
	Check(len(in)-r.Len() == 1+n, "A05: reading stops after the last byte of the integer")
}

// Scalar0: the AMF0 values without parts.
func Scalar0() {
	in := AnyBytes()
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	ed := amf.NewEnDecAMF0()
	Grow(ed)
	Assume(len(in) >= 1)
	m := in[0]
	Assume(m < 2 || m > 3 && m != 7 && m != 8 && m < 10 || m == 11 || m == 13 || m == 14 || m > 17)
	v, err := ed.Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	used := len(in) - r.Len()
	switch m {
	case 0:
		if len(in) < 9 {
			Check(err != nil, "A09: an incomplete number is an error")
			return
		}
		x, ok := v.(float64)
		Check(err == nil && ok && same(x, in[1:9]) && used == 9, "A02: a number is 8 bytes, big endian")
	case 1:
		if len(in) < 2 {
			Check(err != nil, "A09: an incomplete boolean is an error")
			return
		}
		x, ok := v.(bool)
		Check(err == nil && ok && used == 2, "A02: a boolean is one byte")
		Check(in[1] != 0 || !x, "A02: 0 is false")
		Check(in[1] != 1 || x, "A02: 1 is true")
	case 5, 6, 13:
		Check(err == nil && v == nil && used == 1, "A02: null, undefined and unsupported have no content")
	case 11:
		if len(in) < 11 {
			Check(err != nil, "A09: an incomplete date is an error")
			return
		}
		x, ok := v.(float64)
		Check(err == nil && ok && same(x, in[1:9]) && used == 11, "A02: a date is a number and a zone")
	default:
		Check(err != nil, "A02: reserved and unknown markers are errors")
	}
}

// String0: AMF0 strings of both sizes and XML documents.
func String0() {
	in := AnyBytes()
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	ed := amf.NewEnDecAMF0()
	Grow(ed)
	Assume(len(in) >= 1)
	m := in[0]
	Assume(m == 2 || m == 12 || m == 15)
	v, err := ed.Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	used := len(in) - r.Len()
	h := 3
	if m != 2 {
		h = 5
	}
	if len(in) < h {
		Check(err != nil, "A09: an incomplete length is an error")
		return
	}
	n := 0
	if m == 2 {
		n = int(in[1])<<8 | int(in[2])
	} else {
		n = int(in[1])<<24 | int(in[2])<<16 | int(in[3])<<8 | int(in[4])
	}
	if len(in) < h+n {
		Check(err != nil, "A09: an incomplete string is an error")
		return
	}
	x, ok := v.(string)
	Check(err == nil && ok, "A02: a complete string is accepted")
	Check(x == string(in[h:h+n]), "A02: the value is the bytes after the length")
	Check(used == h+n, "A02: nothing beyond the string is read")
}

// u29at reads the header at in[at:], or stops the path with an error required.
func head(in []byte, at int) (uint32, int, bool) {
	v, n := u29(in[at:])
	return v, at + n, n > 0
}

// Scalar3: the AMF3 values without parts.
func Scalar3() {
	in := AnyBytes()
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	ed := amf.NewEnDecAMF3()
	Grow(ed)
	Assume(len(in) >= 1)
	m := in[0]
	Assume(m < 4 || m == 5 || m > 12)
	v, err := ed.Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	used := len(in) - r.Len()
	switch m {
	case 0, 1:
		Check(err == nil && v == nil && used == 1, "A04: undefined and null have no content")
	case 2, 3:
		x, ok := v.(bool)
		Check(err == nil && ok && x == (m == 3) && used == 1, "A04: a boolean is its marker")
	case 5:
		if len(in) < 9 {
			Check(err != nil, "A09: an incomplete number is an error")
			return
		}
		x, ok := v.(float64)
		Check(err == nil && ok && same(x, in[1:9]) && used == 9, "A04: a number is 8 bytes, big endian")
	default:
		Check(err != nil, "A04: unknown and unimplemented markers are errors")
	}
}

// String3: an AMF3 string, XML document or byte array given in place.
func String3() {
	in := AnyBytes()
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	ed := amf.NewEnDecAMF3()
	Grow(ed)
	Assume(len(in) >= 1)
	m := in[0]
	Assume(m == 6 || m == 7 || m == 11 || m == 12)
	h, at, ok := head(in, 1)
	if ok {
		Assume(h&1 == 1)
	}
	v, err := ed.Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	used := len(in) - r.Len()
	if !ok {
		Check(err != nil, "A09: an incomplete header is an error")
		return
	}
	n := int(h >> 1)
	if len(in)-at < n {
		Check(err != nil, "A09: an incomplete string is an error")
		return
	}
	Check(err == nil, "A04: a complete string is accepted")
	if m == 12 {
		b, ok := v.([]byte)
		Check(ok && bytes.Equal(b, in[at:at+n]), "A04: a byte array is the bytes after the length")
	} else {
		s, ok := v.(string)
		Check(ok && s == string(in[at:at+n]), "A04: a string is the bytes after the length")
	}
	Check(used == at+n, "A04: nothing beyond the string is read")
}

// handler reads a value of some foreign form.
func handler(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
	Grow(ed)
	deeper(Level(ed))
	return nested(r)
}

// Free0 and Free3: any value, any bytes, any state of the decoder.
func Free0() {
	Coarse()
	in := AnyBytes()
	r := bytes.NewReader(in)
	ed := amf.NewEnDecAMF0()
	Grow(ed)
	outer, open, torn, ended, broken, lack = AnyLen(), true, false, false, false, false
	Short(r, &lack)
	SetLevel(ed, outer)
	Budget(r)
	Pieces(r, &torn)
	_, err := ed.Decode(r)
	Check(!lack || err != nil, "A09: input that lacks bytes of the value is an error")
	Check(!broken && !ended || err != nil, "A09: an error inside a value makes it an error")
	Check(err != nil || r.Len() < len(in), "A11: a value takes at least one byte")
	Check(err != io.EOF || len(in) == 0, "A09: the end of the input inside a value is not taken for the end of the values")
	Check(!torn || err != nil, "A09: a failed read is an error")
	Check(Level(ed) == outer, "A13: the level is restored")
}

func Free3() {
	Coarse()
	in := AnyBytes()
	r := bytes.NewReader(in)
	ed := amf.NewEnDecAMF3()
	ed.RegisterExternalHandler("x", handler)
	Grow(ed)
	outer, open, torn, ended, broken, lack = AnyLen(), true, false, false, false, false
	Short(r, &lack)
	SetLevel(ed, outer)
	Budget(r)
	_, err := ed.Decode(r)
	Check(!lack || err != nil, "A09: input that lacks bytes of the value is an error")
	Check(!broken && !ended || err != nil, "A09: an error inside a value makes it an error")
	Check(err != nil || r.Len() < len(in), "A11: a value takes at least one byte")
	Check(err != io.EOF || len(in) == 0, "A09: the end of the input inside a value is not taken for the end of the values")
	Check(Level(ed) == outer, "A13: the level is restored")
}

// Batch: any number of values.
func Batch0() {
	ended, broken, count = false, false, 0
	r := bytes.NewReader(AnyBytes())
	vs, err := amf.NewEnDecAMF0().DecodeBatch(r)
	Check(ended || broken, "A09: a batch goes on to the end of the input")
	Check((err == nil) == !broken, "A09: a batch succeeds just when the input ends between two values")
	Check(len(vs) == count, "A09: a batch returns every value read")
}

func Batch3() {
	ended, broken, count = false, false, 0
	r := bytes.NewReader(AnyBytes())
	vs, err := amf.NewEnDecAMF3().DecodeBatch(r)
	Check(ended || broken, "A09: a batch goes on to the end of the input")
	Check((err == nil) == !broken, "A09: a batch succeeds just when the input ends between two values")
	Check(len(vs) == count, "A09: a batch returns every value read")
}

