package zzamf

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"
	. "github.com/moggle-mog/goav/zzv"
)

// Meta0: the header in AMF0, before any bytes.
func Meta0() {
	s := AnyString()
	Assume(len(s) <= 65535)
	text := str0([]byte{2}, s)
	if AnyBool() {
		text = long0([]byte{12}, s)
	}
	meta(s, text, amf.NewEnDecAMF0())
}

// Meta3: the same in AMF3.
func Meta3() {
	s := AnyString()
	Assume(len(s) < 1<<28)
	meta(s, text3([]byte{6}, s), amf.NewEnDecAMF3())
}

func meta(s string, text []byte, d amf.Decoder) {
	plain = true
	tail := AnyBytes()
	in := append(append([]byte(nil), text...), tail...)
	old := append([]byte(nil), in...)
	if AnyBool() {
		out, err := amf.DelMetaHeader(in, d)
		Check(err == nil, "A15: a header is stripped")
		if s == "@setDataFrame" {
			Check(bytes.Equal(out, tail), "A15: stripping leaves what follows the command")
		} else {
			Check(bytes.Equal(out, old), "A15: without command nothing is stripped")
		}
	} else {
		out, err := amf.AddMetaHeader(in, d)
		Check(err == nil, "A15: a header is added")
		if s == "@setDataFrame" {
			Check(bytes.Equal(out, old), "A15: a command is not added twice")
		} else {
			Check(bytes.Equal(out, append(str0([]byte{2}, "@setDataFrame"), old...)), "A15: the command is added in front")
		}
	}
	Check(bytes.Equal(in, old), "A15: the input is not modified")
}

// MetaOther: any bytes with any decoder's result; errors rather than panics, and the input kept.
func MetaFree() {
	Coarse()
	in := AnyBytes()
	old := append([]byte(nil), in...)
	var d amf.Decoder = amf.NewEnDecAMF0()
	if AnyBool() {
		d = amf.NewEnDecAMF3()
	}
	if AnyBool() {
		amf.DelMetaHeader(in, d)
	} else {
		amf.AddMetaHeader(in, d)
	}
	Check(bytes.Equal(in, old), "A15: the input is not modified")
}
