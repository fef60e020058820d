// Package zzts specifies the transport stream muxer by reading back every packet it writes.
package zzts

import (
	"bytes"

	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
	. "github.com/moggle-mog/goav/zzv"
)

func anyPacket() *packet.Packet {
	p := &packet.Packet{Type: AnyInt(), TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
	if AnyBool() {
		p.Header = AnyVHdr()
		Assume(p.Type != packet.PktAudio)
	} else {
		p.Header = AnyAHdr()
		Assume(p.Type != packet.PktVideo)
	}
	return p
}

// crcIn and crcOut are the last input and output of the CRC.
var crcIn []byte
var crcOut uint32

//contract container/ts.GenerateCrc32
func crc(src []byte) uint32 {
	crcIn = append([]byte(nil), src...)
	crcOut = AnyU32()
	return crcOut
}

// stamp is a 33-bit time in the five-byte form with the given prefix.
func stamp(prefix byte, t int64) []byte {
	return []byte{prefix<<4 | byte(t>>30)&7<<1 | 1, byte(t >> 22), byte(t>>15)<<1 | 1, byte(t >> 7), byte(t)<<1 | 1}
}

// pes is the PES packet of the given media.
func pes(video bool, media []byte, dts, pts int64) []byte {
	var id byte = 0xc0
	if video {
		id = 0xe0
	}
	both := video && dts != pts
	n := 8 + len(media)
	if both {
		n += 5
	}
	if n > 0xffff {
		n = 0
	}
	var b []byte
	if both {
		b = append([]byte{0, 0, 1, id, byte(n >> 8), byte(n), 0x80, 0xc0, 10}, stamp(3, pts)...)
		b = append(b, stamp(1, dts)...)
	} else {
		b = append([]byte{0, 0, 1, id, byte(n >> 8), byte(n), 0x80, 0x80, 5}, stamp(2, pts)...)
	}
	return append(b, media...)
}

// headLen is the length of the header of a PES packet.
func headLen(full []byte) int { return 9 + int(full[8]) }

// head compares the header of a PES packet with the specified one.
func head(p, full []byte) {
	Check(p[0] == 0 && p[1] == 0 && p[2] == 1, "T04: a PES packet starts with 00 00 01")
	Check(p[3] == full[3], "T04: the stream id is the one of the kind of packet")
	Check(bytes.Equal(p[4:6], full[4:6]), "T04: the length is that of the rest of the PES packet, or 0")
	Check(p[6] == full[6] && p[7] == full[7] && p[8] == full[8], "T04: markers, flags and header length announce the time stamps")
	Check(p[9] == full[9] && p[10] == full[10] && p[11] == full[11] && p[12] == full[12] && p[13] == full[13], "T04: the presentation time in 33 bits")
	if full[8] == 10 {
		Check(p[14] == full[14] && p[15] == full[15] && p[16] == full[16] && p[17] == full[17] && p[18] == full[18], "T04: the decode time in 33 bits")
	}
}

// out reads the packets of one PES packet.
type out struct {
	pid   int
	cc    byte // of the last packet
	any   bool // whether there was a last packet
	first bool
	pcr   bool
	dts   int64
	full  []byte
	pos   int
}

func (o *out) Write(p []byte) (int, error) {
	Check(len(p) == 188, "T01: packets have 188 bytes")
	Check(p[0] == 0x47, "T01: packets start with the sync byte")
	h := byte(o.pid >> 8)
	if o.first {
		h |= 0x40
	}
	Check(p[1] == h, "T01: the payload start flag is set on the first packet only, on the stream's PID")
	Check(p[2] == byte(o.pid), "T01: the low PID byte")
	Check(p[3]&0xd0 == 0x10, "T01/T02: there is payload and no scrambling")
	Check(!o.any || p[3]&15 == (o.cc+1)&15, "T02: the counter advances by one")
	o.cc, o.any = p[3]&15, true
	off := 4
	if p[3]&0x20 != 0 {
		Check(o.first && o.pcr || len(o.full)-o.pos < 184, "T01/T02: there is an adaptation field only for a PCR or to fill the packet")
		n := int(p[4])
		off = 5 + n
		Check(off <= 188, "T01/T03: the adaptation field ends within the packet")
		at := 6
		if o.first && o.pcr {
			Check(n >= 7, "T05: there is room for the PCR")
			Check(p[5] == 0x50, "T05: the PCR flag is set on a key frame's first packet")
			Check(p[6] == byte(o.dts>>25) && p[7] == byte(o.dts>>17) && p[8] == byte(o.dts>>9) && p[9] == byte(o.dts>>1), "T05: the PCR base is the decode time")
			Check(p[10] == byte(o.dts)<<7|0x7e && p[11] == 0, "T05: the PCR's last bits, the reserved bits and the extension")
			at = 12
		} else if n > 0 {
			Check(p[5]&0x10 == 0, "T05: no other packet has a PCR")
			Check(p[5] == 0, "T03: the flags of an adaptation field that only stuffs are zero")
		}
		if at < off {
			i := AnyLen()
			Assume(at <= i && i < off)
			Check(p[i] == 0xff, "T03: stuffing bytes are 0xff")
		}
	} else {
		Check(!o.first || !o.pcr, "T01/T05: a key frame starts with an adaptation field")
	}
	payload := p[off:]
	if o.first && len(payload) >= headLen(o.full) {
		head(payload, o.full)
	}
	Check(o.pos+len(payload) <= len(o.full), "T01/T03: no payload beyond the PES packet")
	Check(bytes.Equal(payload, o.full[o.pos:o.pos+len(payload)]), "T03: the payload is the next part of the PES packet")
	o.pos += len(payload)
	o.first = false
	return len(p), nil
}

func anything(m *ts.Muxer) {
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyI64(), AnyI64(), &Sink{Fails: true})
		case 1:
			m.PAT()
		case 2:
			m.PMT(packet.PktVideo, packet.PktAudio)
		case 3:
			m.SDT(bytes.NewBuffer(AnyBytes()))
		}
	}
}

// Audio: an audio PES packet of any length.
func Audio() {
	m := ts.NewMuxer()
	anything(m)
	p := anyPacket()
	p.Type = packet.PktAudio
	dts, pts := AnyI64(), AnyI64()
	o := &out{pid: 0x101, first: true, full: pes(false, p.Media, dts, pts)}
	err := m.Mux(p, dts, pts, o)
	Check(err == nil, "T03: an audio packet is muxed")
	Check(o.pos == len(o.full), "T03: the whole PES packet is written")
}

// Inter: a video PES packet of any length that is no key frame.
func Inter() {
	m := ts.NewMuxer()
	anything(m)
	p := anyPacket()
	h := AnyVHdr()
	h.Key = false
	p.Type, p.Header = packet.PktVideo, h
	dts, pts := AnyI64(), AnyI64()
	o := &out{pid: 0x100, first: true, full: pes(true, p.Media, dts, pts)}
	err := m.Mux(p, dts, pts, o)
	Check(err == nil, "T03: a video packet is muxed")
	Check(o.pos == len(o.full), "T03: the whole PES packet is written")
}

// Key: a key frame that fills its first packet.
func Key() {
	m := ts.NewMuxer()
	anything(m)
	p := anyPacket()
	h := AnyVHdr()
	h.Key = true
	p.Type, p.Header = packet.PktVideo, h
	dts, pts := AnyI64(), AnyI64()
	o := &out{pid: 0x100, first: true, pcr: true, dts: dts, full: pes(true, p.Media, dts, pts)}
	Assume(len(o.full) >= 176)
	err := m.Mux(p, dts, pts, o)
	Check(err == nil, "T03: a key frame is muxed")
	Check(o.pos == len(o.full), "T03: the whole PES packet is written")
}

// short reads the only packet of a key frame that does not fill it.
type short struct {
	cc   byte
	any  bool
	dts  int64
	full []byte
	n    int

	stuffed bool // in the adaptation field
}

func (o *short) Write(p []byte) (int, error) {
	o.n++
	Check(len(p) == 188, "T01: packets have 188 bytes")
	Check(p[0] == 0x47 && p[1] == 0x41 && p[2] == 0 && p[3]&0xd0 == 0x10, "T01/T02: sync byte, start flag, video PID and payload flag of a short key frame")
	Check(!o.any || p[3]&15 == (o.cc+1)&15, "T02: the counter advances by one")
	o.cc, o.any = p[3]&15, true
	Check(p[3]&0x20 != 0 && p[4] >= 7 && int(p[4])+5 <= 188, "T01/T05: a short key frame starts with an adaptation field")
	Check(p[5] == 0x50, "T05: the PCR flag is set on a key frame's first packet")
	Check(p[6] == byte(o.dts>>25) && p[7] == byte(o.dts>>17) && p[8] == byte(o.dts>>9) && p[9] == byte(o.dts>>1), "T05: the PCR base is the decode time")
	Check(p[10] == byte(o.dts)<<7|0x7e && p[11] == 0, "T05: the PCR's last bits, the reserved bits and the extension")
	at := 188 - len(o.full)
	head(p[at:], o.full)
	Check(bytes.Equal(p[at:], o.full), "T03: the packet ends with the PES packet")
	o.stuffed = int(p[4])+5 == at
	return len(p), nil
}

// KeyShort: a key frame that does not fill its first packet.
func KeyShort() {
	m := ts.NewMuxer()
	anything(m)
	p := anyPacket()
	h := AnyVHdr()
	h.Key = true
	p.Type, p.Header = packet.PktVideo, h
	dts, pts := AnyI64(), AnyI64()
	o := &short{dts: dts, full: pes(true, p.Media, dts, pts)}
	Assume(len(o.full) < 176)
	err := m.Mux(p, dts, pts, o)
	Check(err == nil, "T03: a short key frame is muxed")
	Check(o.n == 1, "T03: a short key frame takes one packet")
	Check(o.stuffed, "T03: a short key frame's stuffing lies in the adaptation field")
}

// last keeps the counters of the packets of one muxer call.
type last struct {
	cc  byte
	n   int
	any bool
}

func (o *last) Write(p []byte) (int, error) {
	if o.any || o.n > 0 {
		Check(p[3]&15 == (o.cc+1)&15, "T02: the counter advances by one, also from one call to the next")
	}
	o.cc = p[3] & 15
	o.n++
	return len(p), nil
}

// others is anything that does not write packets of this stream.
func others(m *ts.Muxer, kind int) {
	for AnyBool() {
		switch AnyInt() {
		case 0:
			p := anyPacket()
			Assume(p.Type != kind)
			m.Mux(p, AnyI64(), AnyI64(), &Sink{Fails: true})
		case 1:
			m.PAT()
		case 2:
			m.PMT(packet.PktVideo, packet.PktAudio)
		case 3:
			m.SDT(bytes.NewBuffer(AnyBytes()))
		}
	}
}

func counters(kind int) {
	m := ts.NewMuxer()
	anything(m)
	p := anyPacket()
	Assume(p.Type == kind)
	o := &last{}
	m.Mux(p, AnyI64(), AnyI64(), o)
	Assume(o.n > 0)
	others(m, kind)
	q := anyPacket()
	Assume(q.Type == kind)
	l := &last{cc: o.cc, any: true}
	m.Mux(q, AnyI64(), AnyI64(), l)
}

func AudioCounter() { counters(packet.PktAudio) }
func VideoCounter() { counters(packet.PktVideo) }

// PATCounter, PMTCounter, SDTCounter: two tables of a kind with anything but that table in between.
func PATCounter() {
	m := ts.NewMuxer()
	anything(m)
	a := m.PAT()[3]
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyI64(), AnyI64(), &Sink{Fails: true})
		case 1:
			m.PMT(packet.PktVideo)
		case 2:
			m.SDT(bytes.NewBuffer(AnyBytes()))
		}
	}
	b := m.PAT()[3]
	Check(a&0xf0 == 0x10 && b&0xf0 == 0x10, "T01/T02: tables are payload only")
	Check(b&15 == (a+1)&15, "T02: the PAT's counter advances by one")
}

func PMTCounter() {
	m := ts.NewMuxer()
	anything(m)
	a := m.PMT(packet.PktVideo)[3]
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyI64(), AnyI64(), &Sink{Fails: true})
		case 1:
			m.PAT()
		case 2:
			m.SDT(bytes.NewBuffer(AnyBytes()))
		}
	}
	b := m.PMT(packet.PktAudio)[3]
	Check(a&0xf0 == 0x10 && b&0xf0 == 0x10, "T01/T02: tables are payload only")
	Check(b&15 == (a+1)&15, "T02: the PMT's counter advances by one")
}

func SDTCounter() {
	m := ts.NewMuxer()
	anything(m)
	d := AnyBytes()
	Assume(len(d) <= 163)
	a := m.SDT(bytes.NewBuffer(d))[3]
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyI64(), AnyI64(), &Sink{Fails: true})
		case 1:
			m.PAT()
		case 2:
			m.PMT(packet.PktVideo)
		}
	}
	b := m.SDT(bytes.NewBuffer(d))[3]
	Check(a&0xf0 == 0x10 && b&0xf0 == 0x10, "T01/T02: tables are payload only")
	Check(b&15 == (a+1)&15, "T02: the SDT's counter advances by one")
}

// table checks a packet holding one section.
func table(p []byte, pid int, section []byte) {
	Check(len(p) == 188, "T06: tables have 188 bytes")
	Check(p[0] == 0x47 && p[1] == 0x40|byte(pid>>8) && p[2] == byte(pid) && p[3]&0xf0 == 0x10, "T06: sync byte, start flag, PID and payload flag of a table")
	Check(p[4] == 0, "T06: the pointer field is zero")
	n := 5 + len(section)
	Check(n+4 <= 188, "T06: the section fits")
	Check(bytes.Equal(p[5:n], section), "T06: the section's contents")
	Check(bytes.Equal(crcIn, section), "T06: the CRC covers the section")
	Check(p[n] == byte(crcOut>>24) && p[n+1] == byte(crcOut>>16) && p[n+2] == byte(crcOut>>8) && p[n+3] == byte(crcOut), "T06: the CRC follows the section")
	if n+4 < 188 {
		i := AnyLen()
		Assume(n+4 <= i && i < 188)
		Check(p[i] == 0xff, "T06: 0xff up to the end")
	}
}

func PAT() {
	m := ts.NewMuxer()
	anything(m)
	table(m.PAT(), 0, []byte{0, 0xb0, 13, 0, 1, 0xc1, 0, 0, 0, 1, 0xf0, 1})
}

func pmt(kinds ...int) {
	m := ts.NewMuxer()
	anything(m)
	var es []byte
	var v, a bool
	for _, k := range kinds {
		if k == packet.PktVideo && !v {
			v = true
			es = append(es, 0x1b, 0xe1, 0, 0xf0, 0)
		}
		if k == packet.PktAudio && !a {
			a = true
			es = append(es, 0x0f, 0xe1, 1, 0xf0, 0)
		}
	}
	p := m.PMT(kinds...)
	var pcr byte
	if a && !v {
		pcr = 1
	}
	Check(len(p) == 188, "T06: tables have 188 bytes")
	table(p, 0x1001, append([]byte{2, 0xb0, byte(13 + len(es)), 0, 1, 0xc1, 0, 0, 0xe1, p[14], 0xf0, 0}, es...))
	switch {
	case v && a && es[0] == 0x1b:
		Check(p[14] == pcr, "T06: the PMT's PCR PID is the video PID, video listed before audio")
	case v && a:
		Check(p[14] == pcr, "T06: the PMT's PCR PID is the video PID, audio listed before video")
	case v || a:
		Check(p[14] == pcr, "T06: the PMT's PCR PID is that of the only stream")
	}
}

func PMT0() { pmt() }
func PMT1() { pmt(AnyInt()) }
func PMT2() { pmt(AnyInt(), AnyInt()) }
func PMT3() { pmt(AnyInt(), AnyInt(), AnyInt()) }
func PMT4() { pmt(AnyInt(), AnyInt(), AnyInt(), AnyInt()) }

func SDT() {
	m := ts.NewMuxer()
	anything(m)
	d := AnyBytes()
	p := m.SDT(bytes.NewBuffer(d))
	if len(d) > 163 {
		Check(p == nil, "T06: descriptors that do not fit are refused")
		return
	}
	n := 17 + len(d)
	head := []byte{0x42, 0xf0 | byte(n>>8), byte(n), 0, 1, 0xc1, 0, 0, 0xff, 1, 0xff, 0, 1, 0xfc, 0x80 | byte(len(d)>>8), byte(len(d))}
	table(p, 0x11, append(head, d...))
}

// Kinds: any list of kinds at all.
func Kinds() {
	m := ts.NewMuxer()
	anything(m)
	p := m.PMT(AnyInts()...)
	Check(len(p) == 188, "T06: tables have 188 bytes")
}

// Failing: a failing output is reported; the caller's media stays as it is.
func Failing() {
	m := ts.NewMuxer()
	anything(m)
	s := &Sink{Fails: true}
	whole := AnyBytes()
	off, n := AnyLen(), AnyLen()
	Assume(off+n <= len(whole))
	before := append([]byte(nil), whole...)
	p := anyPacket()
	p.Media = whole[off : off+n]
	o := *p
	err := m.Mux(p, AnyI64(), AnyI64(), s)
	Check(!s.Failed || err != nil, "F06: a failing output is reported by the muxer")
	Check(!s.After, "F06: nothing is written after a failure")
	Check(p.Type == o.Type && p.TimeStamp == o.TimeStamp && p.Baseline == o.Baseline && p.StreamID == o.StreamID && p.Header == o.Header, "F05: the muxer leaves the packet's fields")
	Check(len(p.Media) == n && bytes.Equal(p.Media, whole[off:off+n]) && bytes.Equal(p.Data, o.Data), "F05: the muxer leaves the packet's media and data")
	Check(bytes.Equal(whole, before), "F05: the muxer leaves the caller's buffer")
}

// input: data of any length, and a reader that has delivered it, which is what memory may be reserved for.
func input() ([]byte, *bytes.Reader) {
	b := AnyBytes()
	r := bytes.NewReader(b)
	r.Read(make([]byte, len(b)))
	Budget(r)
	return b, r
}

func part(b []byte) []byte {
	n := AnyLen()
	Assume(n <= len(b))
	return b[:n]
}

// Memory: any calls on media no longer than the given data reserve memory for no more than that.
func Memory() {
	b, r := input()
	m := ts.NewMuxer()
	s := &Sink{Fails: true}
	for AnyBool() {
		p := anyPacket()
		p.Media = part(b)
		m.Mux(p, AnyI64(), AnyI64(), s)
	}
	r.Len()
}
