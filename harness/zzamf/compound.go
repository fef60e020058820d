package zzamf

import (
	"bytes"
	"io"
	"time"

	"github.com/moggle-mog/goav/amf"
	. "github.com/moggle-mog/goav/zzv"
)

// real: nested values are decoded by the code itself.
func real() {
	plain = true
	Recurse(4)
}

// key0 appends the AMF0 form of a key.
func key0(b []byte, k []byte) []byte {
	n := len(k)
	b = append(b, byte(n>>8), byte(n))
	return append(b, k...)
}

// anyKey is a key of any length up to max and any content, but empty.
func anyKey(max int) []byte {
	k := AnyBytes()
	Assume(len(k) >= 1 && len(k) <= max)
	return k
}

func eight() []byte {
	return []byte{AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte()}
}

// num appends a number with any bits, and returns its bits too.
func num(b []byte, marker byte) ([]byte, []byte) {
	v := eight()
	b = append(b, marker)
	return append(b, v...), v
}

// rest appends bytes that do not belong to the value.
func rest(b []byte) ([]byte, int) {
	n := len(b)
	return append(b, AnyBytes()...), n
}

func isNum(x interface{}, v []byte) bool {
	f, ok := x.(float64)
	return ok && same(f, v)
}

// start0 appends the marker of an object or associative array.
func start0(b []byte) []byte {
	if AnyBool() {
		return append(b, 3)
	}
	return append(b, 8, AnyByte(), AnyByte(), AnyByte(), AnyByte())
}

// Object0: an object or associative array of no and one entry.
func Object0() {
	real()
	b := start0(nil)
	k := anyKey(65535)
	some := AnyBool()
	var v []byte
	if some {
		b = key0(b, k)
		b, v = num(b, 0)
	}
	b = append(b, 0, 0, 9)
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF0().Decode(r)
	o, ok := x.(amf.Object)
	Check(err == nil && ok, "A02: an object is accepted")
	Check(len(in)-r.Len() == n, "A02: an object ends with its end marker")
	if some {
		Check(len(o) == 1 && isNum(o[string(k)], v), "A02: an object has the entries read")
	} else {
		Check(len(o) == 0, "A02: an empty object has no entries")
	}
}

// Object0x2: two and three entries, the last one nested.
func Object0x2() {
	real()
	b := start0(nil)
	var v, w, u []byte
	b = key0(b, []byte("ab"))
	b, v = num(b, 0)
	b = key0(b, []byte("c"))
	b = start0(b)
	b = key0(b, []byte("ab"))
	b, w = num(b, 0)
	b = append(b, 0, 0, 9)
	b = key0(b, []byte("d"))
	b, u = num(b, 0)
	b = append(b, 0, 0, 9)
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF0().Decode(r)
	o, ok := x.(amf.Object)
	Check(err == nil && ok && len(o) == 3, "A02: an object has all its entries")
	Check(len(in)-r.Len() == n, "A02: an object ends with its end marker")
	Check(isNum(o["ab"], v) && isNum(o["d"], u), "A02: an object has the entries read")
	i, ok := o["c"].(amf.Object)
	Check(ok && len(i) == 1 && isNum(i["ab"], w), "A02: a nested object is the value of its key")
}

// BadEnd0: the empty key must be followed by the end marker.
func BadEnd0() {
	real()
	b := start0(nil)
	e := AnyByte()
	Assume(e != 9)
	b = append(b, 0, 0, e)
	in, _ := rest(b)
	_, err := amf.NewEnDecAMF0().Decode(bytes.NewReader(in))
	Check(err != nil, "A02: an empty key without end marker is an error")
}

// Array0: strict arrays of up to three elements.
func Array0() {
	real()
	c := AnyInt()
	Assume(c >= 0 && c <= 3)
	b := []byte{10, 0, 0, 0, byte(c)}
	var v [3][]byte
	for i := 0; i < c; i++ {
		b, v[i] = num(b, 0)
	}
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF0().Decode(r)
	a, ok := x.(amf.Array)
	Check(err == nil && ok && len(a) == c, "A02: a strict array has as many elements as its count")
	Check(len(in)-r.Len() == n, "A02: a strict array ends with its last element")
	for i := 0; i < c; i++ {
		Check(isNum(a[i], v[i]), "A02: the elements of a strict array are in order")
	}
}

// Typed0: typed objects.
func Typed0() {
	real()
	name, k := AnyBytes(), anyKey(65535)
	Assume(len(name) <= 65535)
	b := key0([]byte{16}, name)
	some := AnyBool()
	var v []byte
	if some {
		b = key0(b, k)
		b, v = num(b, 0)
	}
	b = append(b, 0, 0, 9)
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF0().Decode(r)
	o, ok := x.(amf.TypedObject)
	Check(err == nil && ok && o.Type == string(name), "A02: a typed object has the name read")
	Check(len(in)-r.Len() == n, "A02: a typed object ends with its end marker")
	if some {
		Check(len(o.Object) == 1 && isNum(o.Object[string(k)], v), "A02: a typed object has the entries read")
	} else {
		Check(len(o.Object) == 0, "A02: an empty typed object has no entries")
	}
}

// Switch0: the AVM+ marker switches to AMF3 for one value.
func Switch0() {
	real()
	b := []byte{10, 0, 0, 0, 2, 17}
	b, v := num(b, 5)
	b, w := num(b, 0)
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF0().Decode(r)
	a, ok := x.(amf.Array)
	Check(err == nil && ok && len(a) == 2 && isNum(a[0], v) && isNum(a[1], w), "A02: an AMF3 value inside AMF0")
	Check(len(in)-r.Len() == n, "A02: AMF0 goes on after an AMF3 value")
}

// Ref0: the positions references denote, in the order the values start.
func Ref0() {
	real()
	b := []byte{10, 0, 0, 0, 6} // 0: an array
	var v, w, u []byte
	b = append(b, 3) // 1: an object
	b = key0(b, []byte("k"))
	b = append(b, 8, 0, 0, 0, 0) // 2: an associative array in it
	b = key0(b, []byte("m"))
	b, v = num(b, 0)
	b = append(b, 0, 0, 9, 0, 0, 9)
	b = append(b, 16, 0, 1, 't') // 3: a typed object
	b = key0(b, []byte("n"))
	b, w = num(b, 0)
	b = append(b, 0, 0, 9)
	b = append(b, 10, 0, 0, 0, 1) // 4: an array
	b, u = num(b, 0)
	b = append(b, 7, 0, 2, 7, 0, 3, 7, 0, 4)
	r := bytes.NewReader(b)
	ed := amf.NewEnDecAMF0()
	x, err := ed.Decode(r)
	a, ok := x.(amf.Array)
	Check(err == nil && ok && len(a) == 6, "A14: references to recorded values are accepted")
	o, ok := a[3].(amf.Object)
	Check(ok && len(o) == 1 && isNum(o["m"], v), "A14: a reference to a nested array is that array")
	t, ok := a[4].(amf.TypedObject)
	Check(ok && t.Type == "t" && isNum(t.Object["n"], w), "A14: a reference to a typed object is that object")
	s, ok := a[5].(amf.Array)
	Check(ok && len(s) == 1 && isNum(s[0], u), "A14: a reference to an array has its elements")
	// afterwards
	x, err = ed.Decode(bytes.NewReader([]byte{7, 0, 0}))
	a, ok = x.(amf.Array)
	Check(err == nil && ok && len(a) == 6, "A14: a reference to the first value")
	x, err = ed.Decode(bytes.NewReader([]byte{7, 0, 1}))
	o, ok = x.(amf.Object)
	Check(err == nil && ok && len(o) == 1, "A14: a reference to an object")
	o, ok = o["k"].(amf.Object)
	Check(ok && isNum(o["m"], v), "A14: a reference to an object has its contents")
	hi, lo := AnyByte(), AnyByte()
	Assume(int(hi)<<8|int(lo) >= 5)
	_, err = ed.Decode(bytes.NewReader([]byte{7, hi, lo}))
	Check(err != nil, "A14: a reference beyond the recorded values is an error")
}

// short is an AMF3 header of one byte with its inline flag.
func short(n int) byte { return byte(n<<1 | 1) }

// str3 appends an AMF3 string given in place.
func str3(b []byte, s []byte) []byte {
	b = append(b, short(len(s)))
	return append(b, s...)
}

// Date3: a date given in place.
func Date3() {
	real()
	v := eight()
	b := append([]byte{8, 1}, v...)
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF3().Decode(r)
	_, ok := x.(time.Time)
	Check(err == nil && ok, "A04: a date is accepted")
	Check(len(in)-r.Len() == n, "A04: a date is 8 bytes")
}

func arrayOf(x interface{}) (amf.Array, amf.Object) {
	d, _ := Part(x, amf.Array(nil)).(amf.Array)
	a, _ := Part(x, amf.Object(nil)).(amf.Object)
	return d, a
}

// Array3: arrays of up to three elements with up to one associative entry.
func Array3() {
	real()
	c := AnyInt()
	Assume(c >= 0 && c <= 3)
	b := []byte{9, short(c)}
	k := anyKey(63)
	some := AnyBool()
	var v [3][]byte
	var w []byte
	if some {
		b = str3(b, k)
		b, w = num(b, 5)
	}
	b = append(b, 1)
	for i := 0; i < c; i++ {
		b, v[i] = num(b, 5)
	}
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF3().Decode(r)
	_, ok := x.(amf.EcmaArrayAMF3)
	Check(err == nil && ok, "A04: an array is accepted")
	Check(len(in)-r.Len() == n, "A04: an array ends with its last element")
	d, a := arrayOf(x)
	Check(len(d) == c, "A04: an array has as many elements as its count")
	for i := 0; i < c; i++ {
		Check(isNum(d[i], v[i]), "A04: the elements of an array are in order")
	}
	if some {
		Check(len(a) == 1 && isNum(a[string(k)], w), "A04: an array has the associative entries read")
	} else {
		Check(len(a) == 0, "A04: an array without keys has no associative entries")
	}
}

// Object3: objects with up to two members and up to one dynamic entry.
func Object3() {
	real()
	c, dyn := AnyInt(), AnyBool()
	Assume(c >= 0 && c <= 2)
	h := byte(c)<<4 | 3
	if dyn {
		h |= 8
	}
	name, k := AnyBytes(), anyKey(63)
	Assume(len(name) <= 63)
	b := str3([]byte{10, h}, name)
	m := [2]string{"a", "bc"}
	for i := 0; i < c; i++ {
		b = str3(b, []byte(m[i]))
	}
	var v [2][]byte
	for i := 0; i < c; i++ {
		b, v[i] = num(b, 5)
	}
	some := false
	var w []byte
	if dyn {
		some = AnyBool()
		if some {
			Assume(len(k) > 2)
			b = str3(b, k)
			b, w = num(b, 5)
		}
		b = append(b, 1)
	}
	in, n := rest(b)
	r := bytes.NewReader(in)
	x, err := amf.NewEnDecAMF3().Decode(r)
	o, ok := x.(amf.Object)
	Check(err == nil && ok, "A04: an object is accepted")
	Check(len(in)-r.Len() == n, "A04: an object ends with its last value")
	for i := 0; i < c; i++ {
		Check(isNum(o[m[i]], v[i]), "A04: an object has its members' values")
	}
	if some {
		Check(len(o) == c+1 && isNum(o[string(k)], w), "A04: a dynamic object has its further entries")
	} else {
		Check(len(o) == c, "A04: an object has no entries but its members")
	}
}

// External3: externalizable objects are left to the handler of their class.
func External3() {
	real()
	b := []byte{10, 7}
	b = str3(b, []byte("zz"))
	b, v := num(b, 5)
	in, n := rest(b)
	r := bytes.NewReader(in)
	ed := amf.NewEnDecAMF3()
	ed.RegisterExternalHandler("zz", func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return ed.Decode(r) })
	x, err := ed.Decode(r)
	Check(err == nil && isNum(x, v), "A04: an externalizable object is what its handler reads")
	Check(len(in)-r.Len() == n, "A04: an externalizable object ends where its handler stops")
	_, err = amf.NewEnDecAMF3().Decode(bytes.NewReader(in))
	Check(err != nil, "A04: an externalizable object of unknown class is an error")
}

// Ref3: the positions references denote.
func Ref3() {
	real()
	// 0: an array
	b := []byte{9, short(9), 1}
	var v, w, u, d []byte
	// 1: an object; trait 0; strings 0 "t", 1 "a"
	b = append(b, 10, 0x13)
	b = str3(b, []byte("t"))
	b = str3(b, []byte("a"))
	b, v = num(b, 5)
	// 2: an array
	b = append(b, 9, short(1), 1)
	b, w = num(b, 5)
	// 3: an object of trait 0
	b = append(b, 10, 1)
	b, u = num(b, 5)
	// 4: a byte array
	d = AnyBytes()
	Assume(len(d) <= 63)
	b = append(b, 12)
	b = str3(b, d)
	b = append(b, 6, 2, 10, 2, 9, 4, 10, 6, 12, 8)
	r := bytes.NewReader(b)
	ed := amf.NewEnDecAMF3()
	x, err := ed.Decode(r)
	Check(err == nil && r.Len() == 0, "A14: references to recorded values are accepted")
	a, _ := arrayOf(x)
	Check(len(a) == 9, "A14: an array with references is complete")
	o, ok := a[2].(amf.Object)
	Check(ok && len(o) == 1 && isNum(o["a"], u), "A14: a reference to a trait gives its members")
	s, ok := a[4].(string)
	Check(ok && s == "a", "A14: a reference to a string is that string")
	o, ok = a[5].(amf.Object)
	Check(ok && len(o) == 1 && isNum(o["a"], v), "A14: a reference to an object is that object")
	e, _ := arrayOf(a[6])
	Check(len(e) == 1 && isNum(e[0], w), "A14: a reference to an array is that array with its elements")
	o, ok = a[7].(amf.Object)
	Check(ok && isNum(o["a"], u), "A14: an object of a known trait takes a position")
	y, ok := a[8].([]byte)
	Check(ok && bytes.Equal(y, d), "A14: a reference to a byte array is that byte array")
}

// Beyond3: positions that hold nothing.
func Beyond3() {
	real()
	ed := amf.NewEnDecAMF3()
	_, err := ed.Decode(bytes.NewReader([]byte{9, short(0), 1}))
	Check(err == nil, "A14: an empty array is accepted")
	m, h := AnyByte(), AnyByte()
	Assume(m >= 6 && m <= 12 && m != 6 && h&1 == 0 && h < 128)
	_, err = ed.Decode(bytes.NewReader([]byte{m, h}))
	Check(h < 2 || err != nil, "A14: a reference beyond the recorded values is an error")
	_, err = ed.Decode(bytes.NewReader([]byte{6, h}))
	Check(err != nil, "A14: a reference beyond the recorded strings is an error")
	_, err = ed.Decode(bytes.NewReader([]byte{10, h&0xfc | 1}))
	Check(err != nil, "A14: a reference beyond the recorded traits is an error")
}

// Flags3: every flag of the message types stands for one value, whose name is known or not.
func Flags3() {
	flag3(0, 0, 0)
	flag3(0, 0, 1)
	flag3(0, 0, 2)
	flag3(0, 0, 5)
	flag3(0, 0, 6)
	flag3(0, 1, 0)
	flag3(0, 1, 1)
	flag3(0, 1, 2)
	flag3(0, 1, 5)
	flag3(0, 1, 6)
	flag3(0, 2, 0)
	flag3(0, 2, 1)
	flag3(0, 2, 2)
	flag3(0, 2, 5)
	flag3(0, 2, 6)
	flag3(0, 3, 0)
	flag3(0, 3, 1)
	flag3(0, 3, 2)
	flag3(0, 3, 5)
	flag3(0, 3, 6)
	flag3(0, 4, 0)
	flag3(0, 4, 1)
	flag3(0, 4, 2)
	flag3(0, 4, 5)
	flag3(0, 4, 6)
	flag3(1, 0, 0)
	flag3(1, 0, 1)
	flag3(1, 0, 2)
	flag3(1, 0, 5)
	flag3(1, 0, 6)
	flag3(1, 1, 0)
	flag3(1, 1, 1)
	flag3(1, 1, 2)
	flag3(1, 1, 5)
	flag3(1, 1, 6)
	flag3(1, 2, 0)
	flag3(1, 2, 1)
	flag3(1, 2, 2)
	flag3(1, 2, 5)
	flag3(1, 2, 6)
	flag3(1, 3, 0)
	flag3(1, 3, 1)
	flag3(1, 3, 2)
	flag3(1, 3, 5)
	flag3(1, 3, 6)
	flag3(1, 4, 0)
	flag3(1, 4, 1)
	flag3(1, 4, 2)
	flag3(1, 4, 5)
	flag3(1, 4, 6)
}

var fields3 = [5][7]string{
	{"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"},
	{"clientIdBytes", "messageIdBytes"},
	{},
	{"correlationId", "correlationIdBytes"},
	{},
}

// flag3: a message of the type with all flags up to the one at j of the set.
func flag3(t, set, j int) {
	real()
	b := []byte{10, 7, 7, 'D', 'S', 'A'}
	if t == 1 {
		b[5] = 'K'
	}
	f := byte(1<<uint(j+1) - 1)
	switch set {
	case 0:
		b = append(b, f)
	case 1:
		b = append(b, 0x80, f)
	case 2:
		b = append(b, 0x80, 0x80, f)
	case 3:
		b = append(b, 0, f)
	case 4:
		b = append(b, 0, 0x80, f)
	}
	var v [7][]byte
	for i := 0; i <= j; i++ {
		b, v[i] = num(b, 5)
	}
	if set < 3 {
		b = append(b, 0)
	}
	if t == 1 {
		b = append(b, 0)
	}
	n := len(b)
	b = append(b, 1, 2, 3)
	r := bytes.NewReader(b)
	x, err := amf.NewEnDecAMF3().Decode(r)
	o, ok := x.(amf.Object)
	Check(err == nil && ok, "A04: a message is accepted")
	Check(len(b)-r.Len() == n, "A04: a message has one value for each flag")
	Check(len(o) == j+1, "A04: a message has an entry for each flag")
	for i := 0; i <= j; i++ {
		if k := fields3[set][i]; k != "" {
			Check(isNum(o[k], v[i]), "A04: a field of a message is the value of its flag")
		}
	}
}

// Again0: a key that is given twice has the last value.
func Again0() {
	real()
	var v, w, u []byte
	b := start0(nil)
	b = key0(b, []byte("k"))
	b, v = num(b, 0)
	b = key0(b, []byte("m"))
	b, w = num(b, 0)
	b = key0(b, []byte("k"))
	b, u = num(b, 0)
	b = append(b, 0, 0, 9)
	x, err := amf.NewEnDecAMF0().Decode(bytes.NewReader(b))
	o, ok := x.(amf.Object)
	Check(err == nil && ok && len(v) == 8, "A02: an object with a repeated key is accepted")
	Check(len(o) == 2 && isNum(o["m"], w) && isNum(o["k"], u), "A02: a repeated key has the last value")
}

// Again3: the same for dynamic entries, after a member or an entry of that name.
func Again3() {
	real()
	var w, u []byte
	b := []byte{10, 0x1b, 1}
	b = str3(b, []byte("k"))
	b, _ = num(b, 5)
	b = str3(b, []byte("m"))
	b, _ = num(b, 5)
	b = str3(b, []byte("k"))
	b, w = num(b, 5)
	b = str3(b, []byte("m"))
	b, u = num(b, 5)
	b = append(b, 1)
	x, err := amf.NewEnDecAMF3().Decode(bytes.NewReader(b))
	o, ok := x.(amf.Object)
	Check(err == nil && ok, "A04: an object with a repeated key is accepted")
	Check(len(o) == 2 && isNum(o["k"], w) && isNum(o["m"], u), "A04: a repeated key has the last value")
}

// AgainA3: the same for the associative part of an array.
func AgainA3() {
	real()
	var u, w []byte
	b := []byte{9, 1}
	b = str3(b, []byte("k"))
	b, _ = num(b, 5)
	b = str3(b, []byte("m"))
	b, w = num(b, 5)
	b = str3(b, []byte("k"))
	b, u = num(b, 5)
	b = append(b, 1)
	x, err := amf.NewEnDecAMF3().Decode(bytes.NewReader(b))
	_, ok := x.(amf.EcmaArrayAMF3)
	Check(err == nil && ok, "A04: an array with a repeated key is accepted")
	_, a := arrayOf(x)
	Check(len(a) == 2 && isNum(a["k"], u) && isNum(a["m"], w), "A04: a repeated key has the last value")
}

// Moment3: dates within and beyond the range of 32-bit seconds, to the second.
func Moment3() {
	real()
	s := []int64{0, 1, 1600000000, 2147483647, 2147483648, 5000000000, 253402300799, -1, -86400, -2147483649, -62135596800}
	for _, v := range s {
		b := append([]byte{8, 1}, put0(nil, float64(v)*1000)[1:]...)
		x, err := amf.NewEnDecAMF3().Decode(bytes.NewReader(b))
		t, ok := x.(time.Time)
		Check(err == nil && ok, "A04: a date is accepted")
		Check(t.Unix() == v, "A04: a date is the moment given in milliseconds")
	}
}
