package zzamf

import (
	"bytes"
	"time"

	"github.com/moggle-mog/goav/amf"
	. "github.com/moggle-mog/goav/zzv"
)

// record decodes b, then a byte array, and checks which position each took.
func record(b []byte, takes bool) {
	real()
	ed := amf.NewEnDecAMF3()
	r := bytes.NewReader(b)
	x, err := ed.Decode(r)
	Check(err == nil && r.Len() == 0, "A14: a value given in place is accepted")
	y := AnyBytes()
	Assume(len(y) <= 63)
	c := append([]byte{12, short(len(y))}, y...)
	_, err = ed.Decode(bytes.NewReader(c))
	Check(err == nil, "A14: a byte array is accepted")
	at := 0
	if takes {
		at = 1
		_, err = ed.Decode(bytes.NewReader([]byte{b[0], 0}))
		Check(err == nil, "A14: a reference to the first value is accepted")
	}
	z, err := ed.Decode(bytes.NewReader([]byte{12, byte(at << 1)}))
	g, ok := z.([]byte)
	Check(err == nil && ok && bytes.Equal(g, y), "A14: a value of a type with references takes one position, others none")
	_, err = ed.Decode(bytes.NewReader([]byte{12, byte(at+1) << 1}))
	Check(err != nil, "A14: a reference beyond the recorded values is an error")
	switch t := x.(type) {
	case time.Time:
		Check(b[0] == 8, "A14: only a date is a time")
	default:
		_ = t
	}
}

// body appends bytes of any content, possibly none, with their length.
func body(marker byte) []byte {
	d := AnyBytes()
	Assume(len(d) <= 63)
	return append([]byte{marker, short(len(d))}, d...)
}

func SlotXML3()   { record(body(7), true) }
func SlotXMLe3()  { record(body(11), true) }
func SlotBytes3() { record(body(12), true) }
func SlotText3()  { record(body(6), false) }
func SlotDate3()  { record(append([]byte{8, 1}, eight()...), true) }
func SlotArray3() {
	b := []byte{9, short(1), 1}
	b, _ = num(b, 5)
	record(b, true)
}
func SlotNone3()   { record([]byte{9, 1, 1}, true) }
func SlotObject3() { record([]byte{10, 0x03, 1}, true) }
func SlotPlain3() {
	m := AnyByte()
	Assume(m < 4)
	record([]byte{m}, false)
}
func SlotNum3() {
	b, _ := num(nil, 5)
	record(b, false)
}

// SlotNames3: strings take positions among the strings in the order they start; empty ones take none.
func SlotNames3() {
	real()
	ed := amf.NewEnDecAMF3()
	d := AnyBytes()
	Assume(len(d) <= 63)
	_, err := ed.Decode(bytes.NewReader(append([]byte{6, short(len(d))}, d...)))
	Check(err == nil, "A14: a string given in place is accepted")
	_, err = ed.Decode(bytes.NewReader([]byte{7, short(1), 'x'}))
	Check(err == nil, "A14: an XML document given in place is accepted")
	_, err = ed.Decode(bytes.NewReader([]byte{6, short(1), 'z'}))
	Check(err == nil, "A14: a string given in place is accepted")
	at := 1
	if len(d) == 0 {
		at = 0
	}
	x, err := ed.Decode(bytes.NewReader([]byte{6, byte(at << 1)}))
	s, ok := x.(string)
	Check(err == nil && ok && s == "z", "A14: a string takes one position, an empty one none")
	_, err = ed.Decode(bytes.NewReader([]byte{6, byte(at+1) << 1}))
	Check(err != nil, "A14: a reference beyond the recorded strings is an error")
	if at == 1 {
		x, err = ed.Decode(bytes.NewReader([]byte{6, 0}))
		s, ok = x.(string)
		Check(err == nil && ok && s == string(d), "A14: a reference to the first string is that string")
	}
}

// Slot0: AMF0 values without references take no position.
func Slot0() {
	real()
	ed := amf.NewEnDecAMF0()
	var b []byte
	d := AnyBytes()
	Assume(len(d) <= 65535)
	switch AnyInt() {
	case 0:
		b, _ = num(b, 0)
	case 1:
		b = []byte{1, AnyByte()}
	case 2:
		b = append([]byte{2, byte(len(d) >> 8), byte(len(d))}, d...)
	case 3:
		b = append([]byte{12, 0, 0, byte(len(d) >> 8), byte(len(d))}, d...)
	case 4:
		b = append([]byte{15, 0, 0, byte(len(d) >> 8), byte(len(d))}, d...)
	case 5:
		b, _ = num(b, 11)
		b = append(b, AnyByte(), AnyByte())
	case 6:
		b = []byte{5}
	case 7:
		b = []byte{6}
	default:
		b = []byte{13}
	}
	_, err := ed.Decode(bytes.NewReader(b))
	Check(err == nil, "A14: a value without references is accepted")
	_, err = ed.Decode(bytes.NewReader([]byte{10, 0, 0, 0, 1, 5}))
	Check(err == nil, "A14: an array is accepted")
	x, err := ed.Decode(bytes.NewReader([]byte{7, 0, 0}))
	a, ok := x.(amf.Array)
	Check(err == nil && ok && len(a) == 1, "A14: a value without references takes no position")
	_, err = ed.Decode(bytes.NewReader([]byte{7, 0, 1}))
	Check(err != nil, "A14: a reference beyond the recorded values is an error")
}

// CountIn0: a strict array of any count takes that many values.
func CountIn0() {
	in := AnyBytes()
	Assume(len(in) >= 5 && in[0] == 10)
	r := bytes.NewReader(in)
	count = 0
	x, err := amf.NewEnDecAMF0().Decode(r)
	if err != nil {
		return
	}
	n := int(in[1])<<24 | int(in[2])<<16 | int(in[3])<<8 | int(in[4])
	a, ok := x.(amf.Array)
	Check(count == n, "A02: a strict array of any count reads that many values")
	Check(ok && len(a) == n, "A02: a strict array of any count has that many elements")
}

// CountIn3: an array, without associative entries, of any count takes that many values.
func CountIn3() {
	in := AnyBytes()
	Assume(len(in) >= 1 && in[0] == 9)
	h, at, ok := head(in, 1)
	Assume(ok && h&1 == 1 && len(in) > at && in[at] == 1)
	r := bytes.NewReader(in)
	count = 0
	x, err := amf.NewEnDecAMF3().Decode(r)
	if err != nil {
		return
	}
	a, _ := arrayOf(x)
	Check(count == int(h>>1), "A04: an array of any count reads that many values")
	Check(len(a) == int(h>>1), "A04: an array of any count has that many elements")
}

// members: an object with any number of members, given in a header of k bytes, takes that many values.
func members(k int) {
	in := []byte{10}
	n := 0
	for i := 1; i < k; i++ {
		c := AnyByte() & 0x7f
		in = append(in, c|0x80)
		n = n<<7 | int(c)
	}
	c := AnyByte() & 15
	if k < 4 {
		c &= 7
		n = n<<3 | int(c)
	} else {
		n = n<<4 | int(c)
	}
	in = append(append(in, c<<4|3), AnyBytes()...)
	r := bytes.NewReader(in)
	count = 0
	_, err := amf.NewEnDecAMF3().Decode(r)
	if err != nil {
		return
	}
	Check(count == n, "A04: an object with any number of members reads that many values")
}

func Members3x2() { members(2) }
func Members3x3() { members(3) }
func Members3x4() { members(4) }

// DateIn3: a date given in place is its header and eight bytes.
func DateIn3() {
	in := AnyBytes()
	Assume(len(in) >= 1 && in[0] == 8)
	h, at, ok := head(in, 1)
	if ok {
		Assume(h&1 == 1)
	}
	r := bytes.NewReader(in)
	torn = false
	Pieces(r, &torn)
	ed := amf.NewEnDecAMF3()
	Grow(ed)
	x, err := ed.Decode(r)
	if torn {
		Check(err != nil, "A09: a failed read is an error")
		return
	}
	if !ok {
		Check(err != nil, "A09: an incomplete header is an error")
		return
	}
	if len(in) < at+8 {
		Check(err != nil, "A09: an incomplete date is an error")
		return
	}
	_, ok = x.(time.Time)
	Check(err == nil && ok, "A04: a date is accepted")
	Check(len(in)-r.Len() == at+8, "A04: a date is 8 bytes")
}
