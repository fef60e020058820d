package zzamf

import (
	"bytes"
	"encoding/binary"
	"io"
	"math"
	"time"

	"github.com/moggle-mog/goav/amf"
	. "github.com/moggle-mog/goav/zzv"
)

// nested values are written by contract: some bytes, whose number is returned, or an error.
//
//contract (*amf.EnDecAMF0).Encode
func encode0(ed *amf.EnDecAMF0, w io.Writer, val interface{}) (int, error) {
	if plain {
		return ed.Encode(w, val)
	}
	return part(w, val)
}

//contract (*amf.EnDecAMF3).Encode
func encode3(ed *amf.EnDecAMF3, w io.Writer, val interface{}) (int, error) {
	if plain {
		return ed.Encode(w, val)
	}
	return part(w, val)
}

var parts int   // nested values written
var failed bool // a nested value could not be written
var late bool   // a value was written after that

func part(w io.Writer, val interface{}) (int, error) {
	if failed {
		late = true
	}
	if AnyBool() {
		failed = true
		return AnyInt(), AnyError()
	}
	n := AnyLen()
	Assume(n >= 1)
	_, err := w.Write(make([]byte, n))
	if err != nil {
		failed = true
		return AnyInt(), err
	}
	parts++
	return n, nil
}

// put0 is the AMF0 form of a number.
func put0(b []byte, f float64) []byte {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], math.Float64bits(f))
	b = append(b, 0)
	return append(b, x[:]...)
}

func str0(b []byte, s string) []byte {
	b = append(b, byte(len(s)>>8), byte(len(s)))
	return append(b, s...)
}

func long0(b []byte, s string) []byte {
	n := len(s)
	b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	return append(b, s...)
}

// form0: v is written as the bytes want.
func form0(v interface{}, want []byte) {
	plain = true
	Recurse(4)
	var o Out
	n, err := amf.NewEnDecAMF0().Encode(&o, v)
	wrote0(o.B, n, err, want)
}

func wrote0(got []byte, n int, err error, want []byte) {
	Check(err == nil, "A01: the value is encoded")
	Check(bytes.Equal(got, want), "A01: the value is written in its AMF0 form")
	Check(n == len(got), "A06: the count is the number of bytes written")
}

// stated: the four bytes after the marker are n.
func stated(b []byte, n int) bool {
	return len(b) >= 5 && int(b[1])<<24|int(b[2])<<16|int(b[3])<<8|int(b[4]) == n
}

type myInt int16

// Number0: numbers of every type.
func Number0() {
	b := AnyInt()
	Assume(b >= 0 && b < 11)
	switch b {
	case 0:
		f := AnyF64()
		form0(f, put0(nil, f))
	case 1:
		i := AnyInt()
		form0(i, put0(nil, float64(i)))
	case 2:
		i := AnyI32()
		form0(i, put0(nil, float64(i)))
	case 3:
		i := AnyU32()
		form0(i, put0(nil, float64(i)))
	case 4:
		i := AnyI64()
		form0(i, put0(nil, float64(i)))
	case 5:
		i := AnyU64()
		form0(i, put0(nil, float64(i)))
	case 6:
		i := AnyByte()
		form0(i, put0(nil, float64(i)))
	case 7:
		i := AnyU16()
		form0(i, put0(nil, float64(i)))
	case 8:
		i := int8(AnyByte())
		form0(i, put0(nil, float64(i)))
	case 9:
		i := uint(AnyU64())
		form0(i, put0(nil, float64(i)))
	case 10:
		i := myInt(AnyU16())
		form0(i, put0(nil, float64(i)))
	}
}

// Text0: strings of every length.
func Text0() {
	s := AnyString()
	if len(s) <= 65535 {
		form0(s, str0([]byte{2}, s))
		return
	}
	plain = true
	var o Out
	n, err := amf.NewEnDecAMF0().Encode(&o, s)
	if err == nil {
		Check(len(s) <= 1<<32-1, "A08: a string too long for its length field is refused")
		Check(stated(o.B, len(s)), "A08: the length field of a string is its length")
		Check(bytes.Equal(o.B, long0([]byte{12}, s)), "A01: a long string is written in its AMF0 form")
		Check(n == len(o.B), "A06: the count is the number of bytes written")
	} else {
		Check(len(s) > 1<<32-1, "A01: a long string is encoded")
	}
}

// Single0: the other values without parts.
func Single0() {
	plain = true
	ed := amf.NewEnDecAMF0()
	var o Out
	c := AnyInt()
	Assume(c >= 0 && c < 7)
	switch c {
	case 0:
		form0(nil, []byte{5})
	case 1:
		if AnyBool() {
			form0(true, []byte{1, 1})
		} else {
			form0(false, []byte{1, 0})
		}
	case 2:
		t := time.Unix(AnyI64(), 0)
		form0(t, append(append([]byte{11}, put0(nil, float64(t.Unix())*1000)[1:]...), 0, 0))
	case 3:
		r := AnyU16()
		n, err := ed.EncodeReference(&o, r)
		wrote0(o.B, n, err, []byte{7, byte(r >> 8), byte(r)})
	case 4:
		n, err := ed.EncodeUndefined(&o)
		wrote0(o.B, n, err, []byte{6})
	case 5:
		n, err := ed.EncodeUnsupported(&o)
		wrote0(o.B, n, err, []byte{13})
	case 6:
		s := AnyString()
		n, err := ed.EncodeXmlDocument(&o, s)
		if len(s) <= 1<<32-1 {
			Check(err != nil || stated(o.B, len(s)), "A08: the length field of a document is its length")
			wrote0(o.B, n, err, long0([]byte{15}, s))
		} else {
			Check(err != nil, "A08: a document too long for its length field is refused")
		}
	}
}

// Entries0: objects, typed objects and associative arrays of up to two entries.
func Entries0() {
	plain = true
	Recurse(4)
	ed := amf.NewEnDecAMF0()
	var o Out
	v := amf.Object{}
	c := AnyInt()
	Assume(c >= 0 && c <= 2)
	k, l := AnyString(), AnyString()
	Assume(len(k) >= 1 && len(l) >= 1 && k != l)
	f, g := AnyF64(), AnyF64()
	if c >= 1 {
		v[k] = f
	}
	if c >= 2 {
		v[l] = g
	}
	long := c >= 1 && len(k) > 65535 || c >= 2 && len(l) > 65535
	var want []byte
	var n int
	var err error
	switch d := AnyInt(); {
	case d == 0:
		want = []byte{3}
		n, err = ed.Encode(&o, v)
	case d == 1:
		want = []byte{8, 0, 0, 0, byte(c)}
		n, err = ed.EncodeEcmaArray(&o, v)
	case d == 2:
		s := AnyString()
		long = long || len(s) > 65535
		want = str0([]byte{16}, s)
		n, err = ed.Encode(&o, amf.TypedObject{Type: s, Object: v})
	default:
		return
	}
	if long {
		Check(err != nil, "A08: a key or name too long for its length field is refused")
		return
	}
	Check(err == nil, "A01: the value is encoded")
	Check(n == len(o.B), "A06: the count is the number of bytes written")
	switch c {
	case 0:
		Check(bytes.Equal(o.B, append(want, 0, 0, 9)), "A01: an empty object is written in its AMF0 form")
	case 1:
		want = put0(str0(want, k), f)
		Check(bytes.Equal(o.B, append(want, 0, 0, 9)), "A01: an object of one entry is written in its AMF0 form")
	case 2:
		w1 := append(put0(str0(put0(str0(append([]byte(nil), want...), k), f), l), g), 0, 0, 9)
		w2 := append(put0(str0(put0(str0(append([]byte(nil), want...), l), g), k), f), 0, 0, 9)
		Check(bytes.Equal(o.B, w1) || bytes.Equal(o.B, w2), "A01: an object of two entries is written in its AMF0 form")
	}
}

// Elements0: strict arrays of up to three elements.
func Elements0() {
	f, g, h := AnyF64(), AnyF64(), AnyF64()
	i, j := AnyI32(), AnyI32()
	x, y := AnyByte(), AnyByte()
	hd := []byte{10, 0, 0, 0}
	c := AnyInt()
	Assume(c >= 0 && c < 7)
	switch c {
	case 0:
		form0(amf.Array{}, append(hd, 0))
	case 1:
		form0(amf.Array{f}, put0(append(hd, 1), f))
	case 2:
		form0([]interface{}{f, amf.Array{g}, h}, put0(put0(append(put0(append(hd, 3), f), 10, 0, 0, 0, 1), g), h))
	case 3:
		form0([]int32{i, j}, put0(put0(append(hd, 2), float64(i)), float64(j)))
	case 4:
		form0([2]float64{f, g}, put0(put0(append(hd, 2), f), g))
	case 5:
		form0([]byte{x, y}, put0(put0(append(hd, 2), float64(x)), float64(y)))
	case 6:
		form0([]amf.Object{{"a": f}}, append(put0(append(hd, 1, 3, 0, 1, 'a'), f), 0, 0, 9))
	}
}

// Other0: values of other types are refused.
func Other0() {
	plain = true
	var o Out
	var err error
	ed := amf.NewEnDecAMF0()
	if AnyBool() {
		_, err = ed.Encode(&o, &o)
	} else {
		_, err = ed.Encode(&o, struct{}{})
	}
	Check(err != nil && len(o.B) == 0, "A01: a value without AMF0 form is refused")
}

// Switch0Enc: a value in AMF3 form after its marker.
func Inner3() {
	plain = true
	Recurse(4)
	ed := amf.NewEnDecAMF0()
	var o Out
	f := AnyF64()
	n, err := ed.EncodeWithAMF3(&o, f)
	want := put0(nil, f)
	want[0] = 5
	wrote0(o.B, n, err, append([]byte{17}, want...))
}

// put29 is the shortest form of a variable-length integer.
func put29(b []byte, v uint32) []byte {
	switch {
	case v < 1<<7:
		return append(b, byte(v))
	case v < 1<<14:
		return append(b, byte(v>>7)|0x80, byte(v)&0x7f)
	case v < 1<<21:
		return append(b, byte(v>>14)|0x80, byte(v>>7)|0x80, byte(v)&0x7f)
	}
	return append(b, byte(v>>22)|0x80, byte(v>>15)|0x80, byte(v>>8)|0x80, byte(v))
}

// str3 is a length with the flag of a value given in place, and the bytes.
func text3(b []byte, s string) []byte {
	b = put29(b, uint32(len(s))<<1|1)
	return append(b, s...)
}

func put3(b []byte, f float64) []byte {
	x := put0(nil, f)
	b = append(b, 5)
	return append(b, x[1:]...)
}

func wrote3(got []byte, n int, err error, want []byte) {
	Check(err == nil, "A03: the value is encoded")
	Check(bytes.Equal(got, want), "A03: the value is written in its AMF3 form")
	Check(n == len(got), "A06: the count is the number of bytes written")
}

func form3(v interface{}, want []byte) {
	plain = true
	Recurse(4)
	var o Out
	n, err := amf.NewEnDecAMF3().Encode(&o, v)
	wrote3(o.B, n, err, want)
}

// int3: v, equal to u, is written as an integer, or, where that cannot be, as f.
func int3(v interface{}, fits bool, u uint32, f float64) {
	plain = true
	var o Out
	n, err := amf.NewEnDecAMF3().Encode(&o, v)
	if err == nil && len(o.B) > 0 && o.B[0] == 4 {
		Check(fits, "A03: an integer of more than 29 bits is not written as an integer")
		Check(bytes.Equal(o.B, put29([]byte{4}, u)), "A05: an integer is written in the shortest form")
		Check(n == len(o.B), "A06: the count is the number of bytes written")
		return
	}
	wrote3(o.B, n, err, put3(nil, f))
}

func signed3(v interface{}, i int64, f float64) {
	if i >= 0 && i < 1<<29 {
		int3(v, true, uint32(i), f)
	} else {
		int3(v, false, 0, f)
	}
}

func unsigned3(v interface{}, i uint64, f float64) {
	if i < 1<<29 {
		int3(v, true, uint32(i), f)
	} else {
		int3(v, false, 0, f)
	}
}

// Number3: numbers of every type.
func Number3() {
	b := AnyInt()
	Assume(b >= 0 && b < 12)
	switch b {
	case 0:
		f := AnyF64()
		form3(f, put3(nil, f))
	case 1:
		i := AnyInt()
		signed3(i, int64(i), float64(i))
	case 2:
		i := AnyI32()
		signed3(i, int64(i), float64(i))
	case 3:
		i := AnyU32()
		unsigned3(i, uint64(i), float64(i))
	case 4:
		i := AnyI64()
		signed3(i, int64(i), float64(i))
	case 5:
		i := AnyU64()
		unsigned3(i, uint64(i), float64(i))
	case 6:
		i := AnyByte()
		unsigned3(i, uint64(i), float64(i))
	case 7:
		i := AnyU16()
		unsigned3(i, uint64(i), float64(i))
	case 8:
		i := int8(AnyByte())
		signed3(i, int64(i), float64(i))
	case 9:
		i := uint(AnyU64())
		unsigned3(i, uint64(i), float64(i))
	case 10:
		i := myInt(AnyU16())
		signed3(i, int64(i), float64(i))
	case 11:
		// an integer of 29 bits that is the element of an array is written as itself
		i := AnyU32()
		Assume(i < 1<<29-1)
		var o Out
		plain = true
		_, err := amf.NewEnDecAMF3().Encode(&o, i)
		Check(err == nil && bytes.Equal(o.B, put29([]byte{4}, i)), "A05: an integer is written in the shortest form")
	}
}

// Single3: the other values without parts.
func Single3() {
	c := AnyInt()
	Assume(c >= 0 && c < 5)
	switch c {
	case 0:
		form3(nil, []byte{1})
	case 1:
		form3(true, []byte{3})
	case 2:
		form3(false, []byte{2})
	case 3:
		t := time.Unix(AnyI64(), 0)
		form3(t, append([]byte{8, 1}, put3(nil, float64(t.Unix())*1000)[1:]...))
	case 4:
		var o Out
		var err error
		ed := amf.NewEnDecAMF3()
		if AnyBool() {
			_, err = ed.Encode(&o, &o)
		} else {
			_, err = ed.Encode(&o, struct{}{})
		}
		Check(err != nil && len(o.B) == 0, "A03: a value without AMF3 form is refused")
	}
}

// Text3: strings and byte arrays of every length.
func Text3() {
	plain = true
	ed := amf.NewEnDecAMF3()
	var o Out
	s := AnyString()
	var n int
	var err error
	var m byte
	if AnyBool() {
		m = 6
		n, err = ed.Encode(&o, s)
	} else {
		m = 12
		n, err = ed.Encode(&o, []byte(s))
	}
	if len(s) < 1<<28 {
		wrote3(o.B, n, err, text3([]byte{m}, s))
	} else {
		Check(err != nil, "A08: a string too long for its header is refused")
	}
}

// Members3: objects of up to three members.
func Members3_0() { members3(0) }
func Members3_1() { members3(1) }
func Members3_2() { members3(2) }
func Members3_3() { members3(3) }

func members3(c int) {
	plain = true
	Recurse(4)
	var o Out
	v := amf.Object{}
	k := []string{AnyString(), AnyString(), "m"}
	if c == 3 {
		k[1] = "p"
	}
	Assume(len(k[0]) >= 1 && len(k[0]) < 40 && len(k[1]) < 40 && k[0] != k[1] && k[0] != k[2] && k[1] != k[2])
	f := []float64{AnyF64(), AnyF64(), AnyF64()}
	for i := 0; i < c; i++ {
		v[k[i]] = f[i]
	}
	typ := ""
	var n int
	var err error
	if AnyBool() {
		typ = AnyString()
		Assume(len(typ) < 40)
		n, err = amf.NewEnDecAMF3().Encode(&o, amf.TypedObject{Type: typ, Object: v})
	} else {
		n, err = amf.NewEnDecAMF3().Encode(&o, v)
	}
	// the places of the members in the order of their names
	a, b, d := 0, 1, 2
	if c >= 2 && k[b] < k[a] {
		a, b = b, a
	}
	if c >= 3 {
		if k[d] < k[b] {
			b, d = d, b
		}
		if k[b] < k[a] {
			a, b = b, a
		}
	}
	at := []int{a, b, d}
	want := []byte{10, byte(c)<<4 | 3}
	want = text3(want, typ)
	for i := 0; i < c; i++ {
		want = text3(want, k[at[i]])
	}
	for i := 0; i < c; i++ {
		want = put3(want, f[at[i]])
	}
	wrote3(o.B, n, err, want)
}

// Names3: names of any length.
func Names3() {
	plain = true
	Recurse(4)
	var o Out
	k, typ := AnyString(), AnyString()
	f := AnyF64()
	n, err := amf.NewEnDecAMF3().Encode(&o, amf.TypedObject{Type: typ, Object: amf.Object{k: f}})
	if len(k) >= 1<<28 || len(typ) >= 1<<28 {
		Check(err != nil, "A08: a name too long for its header is refused")
		return
	}
	wrote3(o.B, n, err, put3(text3(text3([]byte{10, 0x13}, typ), k), f))
}

// Elements3: arrays of up to three elements.
func Elements3() {
	f, g, h := AnyF64(), AnyF64(), AnyF64()
	i, j := AnyI64(), AnyI64()
	c := AnyInt()
	Assume(c >= 0 && c < 6)
	switch c {
	case 0:
		form3(amf.Array{}, []byte{9, 1, 1})
	case 1:
		form3(amf.Array{f}, put3([]byte{9, 3, 1}, f))
	case 2:
		form3([]interface{}{f, amf.Array{g}, h}, put3(put3(append(put3([]byte{9, 7, 1}, f), 9, 3, 1), g), h))
	case 3:
		form3([]int64{i, j}, put3(put3([]byte{9, 5, 1}, float64(i)), float64(j)))
	case 4:
		form3([2]float64{f, g}, put3(put3([]byte{9, 5, 1}, f), g))
	case 5:
		form3([]amf.Object{{"a": f}}, put3([]byte{9, 3, 1, 10, 0x13, 1, 3, 'a'}, f))
	}
}

// sink: a writer that may fail at any write, into which one value is written.
func sink() *Sink {
	failed, late = false, false
	return &Sink{Fails: true}
}

func settle(s *Sink, n int, err error) {
	Check(!s.Failed && !failed || err != nil, "A07: a failed write is reported")
	Check(err != nil || n == s.N, "A06: the count is the number of bytes written")
}

// Any0 and Any3: any value, on a writer that may fail.
func Any0() {
	Coarse()
	s := sink()
	n, err := amf.NewEnDecAMF0().Encode(s, AnyValue())
	settle(s, n, err)
}

func Any3() {
	Coarse()
	s := sink()
	n, err := amf.NewEnDecAMF3().Encode(s, AnyValue())
	settle(s, n, err)
}

// Calls0: the other entry points.
func Calls0() {
	Coarse()
	s := sink()
	ed := amf.NewEnDecAMF0()
	var n int
	var err error
	var v amf.Object
	Grow(&v)
	switch c := AnyInt(); {
	case c == 0:
		n, err = ed.EncodeEcmaArray(s, v)
	case c == 1:
		n, err = ed.EncodeXmlDocument(s, AnyString())
	case c == 2:
		n, err = ed.EncodeReference(s, AnyU16())
	case c == 3:
		n, err = ed.EncodeUndefined(s)
	case c == 4:
		n, err = ed.EncodeUnsupported(s)
	case c == 5:
		n, err = ed.EncodeWithAMF3(s, AnyValue())
	default:
		return
	}
	settle(s, n, err)
}

// Batches: any number of values.
func BatchEnc0() {
	s := sink()
	err := amf.NewEnDecAMF0().EncodeBatch(s, AnyValues()...)
	Check(!s.Failed && !failed || err != nil, "A07: a failed write is reported")
	Check(!late && !s.After, "A07: a batch stops at the first value that fails")
}

func BatchEnc3() {
	s := sink()
	err := amf.NewEnDecAMF3().EncodeBatch(s, AnyValues()...)
	Check(!s.Failed && !failed || err != nil, "A07: a failed write is reported")
	Check(!late && !s.After, "A07: a batch stops at the first value that fails")
}

// First keeps the start of what is written to it.
type First struct{ B []byte }

func (f *First) Write(p []byte) (int, error) {
	if len(f.B) < 5 {
		f.B = append(f.B, p...)
	}
	return len(p), nil
}

// Count0: strict arrays of any length.
func Count0() {
	f := &First{}
	a := make(amf.Array, AnyLen())
	_, err := amf.NewEnDecAMF0().Encode(f, a)
	n := len(a)
	Check(err != nil || n <= 1<<32-1, "A08: an array too long for its count is refused")
	Check(err != nil || stated(f.B, n), "A08: the count is the number of elements")
}

// Count3: arrays of any length.
func Count3() {
	f := &First{}
	a := make(amf.Array, AnyLen())
	_, err := amf.NewEnDecAMF3().Encode(f, a)
	n := len(a)
	Check(err != nil || n < 1<<28, "A08: an array too long for its header is refused")
}

// CountE0: associative arrays of any size.
func CountE0() {
	f := &First{}
	a := amf.Object{}
	for i := AnyLen(); i > 0; i-- {
		a[AnyString()] = AnyF64()
	}
	_, err := amf.NewEnDecAMF0().EncodeEcmaArray(f, a)
	n := len(a)
	Check(err != nil || n <= 1<<32-1, "A08: an array too long for its count is refused")
	Check(err != nil || stated(f.B, n), "A08: the count is the number of entries")
}
