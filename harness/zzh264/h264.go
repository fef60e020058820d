package zzh264

import (
	"bytes"

	"github.com/moggle-mog/goav/parser/h264"
	. "github.com/moggle-mog/goav/zzv"
)

func anything(p *h264.Parser) {
	for AnyBool() {
		p.Parse(AnyBytes(), AnyBool(), &Sink{Fails: true})
	}
}

// noNewHeader: any calls, no sequence header among them being accepted.
func noNewHeader(p *h264.Parser) {
	for AnyBool() {
		hdr := AnyBool()
		err := p.Parse(AnyBytes(), hdr, &Sink{Fails: true})
		Assume(!hdr || err != nil)
	}
}

// seqHeader builds a sequence header with the given first parameter sets.
func seqHeader(sps, pps, more []byte) []byte {
	b := []byte{AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte(), AnyByte()}
	b = append(b, byte(len(sps)>>8), byte(len(sps)))
	b = append(b, sps...)
	b = append(b, AnyByte(), byte(len(pps)>>8), byte(len(pps)))
	b = append(b, pps...)
	return append(b, more...)
}

func params(ps ...[]byte) []byte {
	var r []byte
	for _, p := range ps {
		r = append(r, 0, 0, 0, 1)
		r = append(r, p...)
	}
	return r
}

// idr converts an access unit holding one IDR unit, which shows the stored parameter sets.
func idr(p *h264.Parser) (out, unit []byte) {
	unit = AnyBytes()
	Assume(len(unit) > 1 && len(unit) < 1<<30 && unit[0]&31 == 5)
	b := []byte{byte(len(unit) >> 24), byte(len(unit) >> 16), byte(len(unit) >> 8), byte(len(unit))}
	b = append(b, unit...)
	o := &Out{}
	err := p.Parse(b, false, o)
	Check(err == nil, "an access unit with an IDR unit is converted")
	return o.B, unit
}

var aud = []byte{0, 0, 0, 1, 9, 0xf0}

func cat(ps ...[]byte) []byte {
	var r []byte
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

// SeqHeader: the last accepted sequence header's parameter sets precede the IDR unit.
func SeqHeader() {
	p := h264.NewParser()
	anything(p)
	sps, pps := AnyBytes(), AnyBytes()
	Assume(len(sps) > 0 && len(sps) <= 0xffff)
	Assume(len(pps) > 0 && len(pps) <= 0xffff)
	o := &Out{}
	err := p.Parse(seqHeader(sps, pps, AnyBytes()), true, o)
	Check(err == nil, "C04: a complete sequence header is accepted")
	Check(len(o.B) == 0, "C04: a sequence header emits nothing")
	noNewHeader(p)
	out, unit := idr(p)
	Check(bytes.Equal(out, cat(aud, params(sps, pps), params(unit))), "C04: exactly the last SPS and PPS precede the IDR unit")
}

// BadHeader: truncated or empty sequence headers are refused and change nothing.
func BadHeader() {
	p := h264.NewParser()
	sps, pps := AnyBytes(), AnyBytes()
	Assume(len(sps) > 0 && len(sps) <= 0xffff)
	Assume(len(pps) > 0 && len(pps) <= 0xffff)
	err := p.Parse(seqHeader(sps, pps, AnyBytes()), true, &Out{})
	Assume(err == nil)
	bad := AnyBytes()
	if len(bad) >= 8 {
		n := int(bad[6])<<8 | int(bad[7])
		if n > 0 && len(bad) >= 8+n+3 {
			m := int(bad[8+n+1])<<8 | int(bad[8+n+2])
			Assume(m == 0 || len(bad) < 8+n+3+m)
		}
	}
	err = p.Parse(bad, true, &Out{})
	Check(err != nil, "C04/F04: a truncated or empty sequence header is refused")
	out, unit := idr(p)
	Check(bytes.Equal(out, cat(aud, params(sps, pps), params(unit))), "C04: a refused sequence header changes nothing")
}

// conv builds an access unit and what its conversion must be.
type conv struct {
	stored       []byte // parameter sets of the last sequence header
	src, want    []byte
	sets         []byte // parameter sets met in this access unit
	did, hasSets bool
	n            int
}

func (c *conv) unit(t byte) []byte {
	u := AnyBytes()
	Assume(len(u) > 0 && len(u) < 1<<30 && u[0]&31 == t)
	if c.n == 0 {
		Assume(len(u) != 1) // its length field would read as a start code
	}
	c.n++
	c.src = cat(c.src, []byte{byte(len(u) >> 24), byte(len(u) >> 16), byte(len(u) >> 8), byte(len(u))}, u)
	return u
}

func (c *conv) slice() { c.want = cat(c.want, params(c.unit(1))) }
func (c *conv) sei()   { c.want = cat(c.want, params(c.unit(6))) }
func (c *conv) delim() { c.unit(9) }
func (c *conv) set() {
	var u []byte
	if AnyBool() {
		u = c.unit(7)
	} else {
		u = c.unit(8)
	}
	c.hasSets = true
	c.sets = cat(c.sets, params(u))
}
func (c *conv) idr() {
	u := c.unit(5)
	if !c.did {
		c.did = true
		if c.hasSets {
			c.want = cat(c.want, c.sets)
		} else {
			c.want = cat(c.want, c.stored)
		}
	}
	c.want = cat(c.want, params(u))
}

func (c *conv) any() {
	switch AnyInt() {
	case 0:
		c.slice()
	case 1:
		c.idr()
	case 2:
		c.sei()
	case 3:
		c.set()
	default:
		c.delim()
	}
}

func (c *conv) good(p *h264.Parser) {
	o := &Out{}
	err := p.Parse(c.src, false, o)
	Check(err == nil, "C03: a well-formed access unit is converted")
	Check(bytes.Equal(o.B, cat(aud, c.want)), "C03: delimiter, parameter sets before the first IDR unit, every unit unchanged and in order")
}

func (c *conv) bad(p *h264.Parser) {
	err := p.Parse(c.src, false, &Out{})
	Check(err != nil, "C03/F04: a malformed access unit is refused")
}

// fresh: a parser that holds no parameter sets, after any calls that did not store some.
func fresh() (*h264.Parser, *conv) {
	p := h264.NewParser()
	noNewHeader(p)
	return p, &conv{}
}

// stored: a parser whose last accepted sequence header held known parameter sets.
func stored() (*h264.Parser, *conv) {
	p := h264.NewParser()
	anything(p)
	sps, pps := AnyBytes(), AnyBytes()
	Assume(len(sps) > 0 && len(sps) <= 0xffff)
	Assume(len(pps) > 0 && len(pps) <= 0xffff)
	err := p.Parse(seqHeader(sps, pps, AnyBytes()), true, &Out{})
	Assume(err == nil)
	noNewHeader(p)
	return p, &conv{stored: params(sps, pps)}
}

func Fresh1() {
	p, c := fresh()
	c.any()
	c.good(p)
}

func Fresh2() {
	p, c := fresh()
	c.any()
	c.any()
	c.good(p)
}

func Stored2() {
	p, c := stored()
	c.any()
	c.any()
	c.good(p)
}

func Three1() {
	p, c := fresh()
	c.set()
	c.any()
	c.any()
	c.good(p)
}

func Three2() {
	p, c := fresh()
	c.any()
	c.set()
	c.any()
	c.good(p)
}

func Three3() {
	p, c := fresh()
	c.idr()
	c.any()
	c.any()
	c.good(p)
}

func Three4() {
	p, c := stored()
	c.any()
	c.any()
	c.idr()
	c.good(p)
}

// malformed: an unknown unit type, or something that is not a complete unit, ends the access unit.
func (c *conv) malformed() {
	if AnyBool() {
		t := AnyByte()
		Assume(t < 32 && t != 1 && t != 5 && t != 6 && t != 7 && t != 8 && t != 9)
		c.unit(t)
		c.src = cat(c.src, AnyBytes())
		return
	}
	tail := AnyBytes()
	Assume(len(tail) > 0)
	if len(tail) >= 4 {
		m := int(tail[0])<<24 | int(tail[1])<<16 | int(tail[2])<<8 | int(tail[3])
		Assume(len(c.src) > 0 || m != 1)
		if m != 0 {
			Assume(m > len(tail)-4)
		}
	}
	c.src = cat(c.src, tail)
}

func Malformed0() {
	p, c := fresh()
	c.malformed()
	c.bad(p)
}

func Malformed1() {
	p, c := fresh()
	c.any()
	c.malformed()
	c.bad(p)
}

func Malformed2() {
	p, c := stored()
	c.any()
	c.any()
	c.malformed()
	c.bad(p)
}

// PassThrough: data that already starts with a start code is not touched.
func PassThrough() {
	p := h264.NewParser()
	anything(p)
	b := AnyBytes()
	Assume(len(b) >= 4 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1)
	o := &Out{}
	err := p.Parse(b, false, o)
	Check(err == nil, "C03: Annex-B data is accepted")
	Check(bytes.Equal(o.B, b), "C03: Annex-B data passes unchanged")
}
