// Package zztsmix specifies the transport stream mixer: its clock, what it hands to the muxer, and its headers.
package zztsmix

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	. "github.com/moggle-mog/goav/zzv"
)

// The parser and the muxer are checked elsewhere; here only what they are asked.
var (
	watch    bool
	parses   int
	media    []byte // the converted media
	muxes    int
	dts, pts int64
	rate     bool
	tables   [3][]byte
	asked    [3]int
	video    int
	audio    int
	kinds    int
	descs    []byte
)

//contract (*parser.CodecParser).Parse
func parse(c *parser.CodecParser, p *packet.Packet, w io.Writer) error {
	b := AnyBytes()
	if watch {
		parses++
		Check(bytes.Equal(p.Media, media), "T03: the packet's media is converted")
		media = b
	}
	w.Write(b)
	if AnyBool() {
		return AnyError()
	}
	return nil
}

//contract (*parser.CodecParser).SampleRate
func sampleRate(c *parser.CodecParser) (int, error) {
	if AnyBool() {
		return 0, AnyError()
	}
	r := AnyInt()
	Assume(r >= 1 && r <= 96000)
	rate = true
	return r, nil
}

//contract (*container/ts.Muxer).Mux
func mux(m *ts.Muxer, p *packet.Packet, d, t int64, w io.Writer) error {
	if watch {
		muxes++
		dts, pts = d, t
		Check(bytes.Equal(p.Media, media), "T03: the converted media is muxed, all of it and nothing else")
	}
	if !watch {
		_, err := w.Write(AnyBytes())
		return err
	}
	for AnyBool() {
		if _, err := w.Write(AnyBytes()); err != nil {
			return err
		}
	}
	if AnyBool() {
		return AnyError()
	}
	return nil
}

//contract (*container/ts.Muxer).SDT
func sdt(m *ts.Muxer, d *bytes.Buffer) []byte {
	asked[0]++
	descs = d.Bytes()
	tables[0] = AnyBytes()
	return tables[0]
}

//contract (*container/ts.Muxer).PAT
func pat(m *ts.Muxer) []byte {
	asked[1]++
	tables[1] = AnyBytes()
	return tables[1]
}

//contract (*container/ts.Muxer).PMT
func pmt(m *ts.Muxer, ks ...int) []byte {
	asked[2]++
	kinds = len(ks)
	video, audio = 0, 0
	for _, k := range ks {
		if k == packet.PktVideo {
			video++
		}
		if k == packet.PktAudio {
			audio++
		}
	}
	tables[2] = AnyBytes()
	return tables[2]
}

func anyPacket() *packet.Packet {
	p := &packet.Packet{Type: AnyInt(), TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
	if AnyBool() {
		p.Header = AnyVHdr()
		Assume(p.Type != packet.PktAudio)
	} else {
		p.Header = AnyAHdr()
		Assume(p.Type != packet.PktVideo)
	}
	return p
}

func anything(m *ts.Mixer) {
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket())
		case 1:
			m.Update(anyPacket(), AnyU32(), AnyU32())
		case 2:
			m.SaveMetadata(amf.Object{"Provider": AnyValue(), "Service": AnyValue()})
		case 3:
			m.SaveAVCHeader(anyPacket())
		case 4:
			m.SaveAACHeader(anyPacket())
		case 5:
			m.SetTsHeader()
		}
	}
}

// Clock: a packet's times, whatever came before, as the muxer gets them.
func Clock() {
	m := ts.NewMixer(&Sink{Fails: true})
	anything(m)
	p := anyPacket()
	t, ct := AnyU32(), AnyU32()
	rate = false
	err := m.Update(p, t, ct)
	Assume(err == nil)
	q := anyPacket()
	media = q.Media
	watch = true
	muxes = 0
	m.Mux(q)
	Assume(muxes > 0)
	at := 90 * int64(t)
	switch p.Type {
	case packet.PktVideo:
		Check(dts == at, "T08: a video packet's decode time is 90 times its time")
		Check(pts == at+90*int64(int32(ct)), "T08: a video packet's presentation time is 90 times the signed offset later")
	case packet.PktAudio:
		Check(rate, "T08: the audio clock goes by the sample rate")
		Check(dts == pts, "T08: an audio packet is presented when it is decoded")
		Check(dts-at <= 900 && at-dts <= 900, "T08: an audio packet's time is at most 10 ms from 90 times its time")
	default:
		Check(dts == at, "T08: any other packet's decode time is 90 times its time")
	}
}

// Packets: an ordinary packet is left alone.
func Packets() {
	s := &Sink{Fails: true}
	m := ts.NewMixer(s)
	anything(m)
	s.Failed, s.After = false, false
	whole := AnyBytes()
	off, n := AnyLen(), AnyLen()
	Assume(off+n <= len(whole))
	before := append([]byte(nil), whole...)
	p := anyPacket()
	p.Media = whole[off : off+n]
	o := *p
	media = p.Media
	watch = true
	muxes, parses = 0, 0
	err := m.Mux(p)
	Check(p.Type == o.Type && p.TimeStamp == o.TimeStamp && p.Baseline == o.Baseline && p.StreamID == o.StreamID && p.Header == o.Header, "F05: the mixer leaves the packet's fields")
	Check(len(p.Media) == n && bytes.Equal(p.Media, whole[off:off+n]) && bytes.Equal(p.Data, o.Data), "F05: the mixer leaves the packet's media and data")
	Check(bytes.Equal(whole, before), "F05: the mixer leaves the caller's buffer")
	Check(!s.Failed || err != nil, "F06: a failing output is reported by the mixer")
	Check(!s.After, "F06: nothing is written after a failure")
	if err == nil {
		Check(parses == 1 && muxes == 1, "T03: a packet is converted and muxed once")
	}
}

// outs collects single writes.
type outs struct {
	n int
	b [3][]byte
}

func (o *outs) Write(p []byte) (int, error) {
	if o.n < 3 {
		o.b[o.n] = append([]byte(nil), p...)
	}
	o.n++
	return len(p), nil
}

// Header: the tables are those of the streams saved.
func Header() {
	m := ts.NewMixer(&Sink{})
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket())
		case 1:
			m.Update(anyPacket(), AnyU32(), AnyU32())
		case 2:
			m.SaveMetadata(amf.Object{"Provider": AnyValue(), "Service": AnyValue()})
		case 3:
			m.SetTsHeader()
		}
	}
	v, a := AnyBool(), AnyBool()
	savedV, savedA := v && m.SaveAVCHeader(anyPacket()) == nil, a && m.SaveAACHeader(anyPacket()) == nil
	o := &outs{}
	m.SetWriter(o)
	asked = [3]int{}
	err := m.SetTsHeader()
	Check(err == nil, "T06: the tables are written")
	Check(o.n == 3, "T06: three tables are written")
	Check(asked[0] == 1 && asked[1] == 1 && asked[2] == 1, "T06: each table is made once")
	Check(bytes.Equal(o.b[0], tables[0]) && bytes.Equal(o.b[1], tables[1]) && bytes.Equal(o.b[2], tables[2]), "T06: the SDT, the PAT and the PMT are written")
	Check(!savedV || video == 1, "T06: the PMT lists the video stream once its header was saved")
	Check(!savedA || audio == 1, "T06: the PMT lists the audio stream once its header was saved")
	Check((v || video == 0) && (a || audio == 0) && kinds == video+audio, "T06: the PMT lists no other stream")
}

// FailingHeader: a failing output is reported.
func FailingHeader() {
	s := &Sink{Fails: true}
	m := ts.NewMixer(s)
	anything(m)
	s.Failed, s.After = false, false
	err := m.SetTsHeader()
	Check(!s.Failed || err != nil, "F06: a failing output is reported by the table call")
	Check(!s.After, "F06: nothing is written after a failure")
}

// Metadata: what is saved is the service descriptor.
func Metadata() {
	m := ts.NewMixer(&Sink{})
	anything(m)
	md := amf.Object{}
	provider, service := "undefined", "undefined"
	switch AnyInt() {
	case 0:
	case 1:
		provider, service = AnyString(), AnyString()
		md["Provider"], md["Service"] = provider, service
	case 2:
		provider = AnyString()
		md["Provider"], md["Service"] = provider, AnyF64()
	case 3:
		service = AnyString()
		md["Service"] = service
	}
	m.SetTsHeader()
	old := descs
	err := m.SaveMetadata(md)
	m.SetTsHeader()
	n := len(provider) + len(service)
	if n > 158 {
		Check(err != nil, "T10: names that do not fit the SDT are refused")
		Check(bytes.Equal(descs, old), "T10: refused names leave the descriptors")
		return
	}
	Check(err == nil, "T10: names that fit are accepted")
	b := []byte{0x48, byte(n + 3), 1, byte(len(provider))}
	b = append(append(b, provider...), byte(len(service)))
	Check(bytes.Equal(descs, append(b, service...)), "T10: the SDT gets the service descriptor")
}

// Service, NetworkName, Country: each call appends one descriptor or nothing.
func Service() {
	d := table.NewDescriptor()
	d.GetBuffer().Write(AnyBytes())
	before := append([]byte(nil), d.GetBuffer().Bytes()...)
	kind, provider, service := AnyByte(), AnyString(), AnyString()
	err := d.Service(kind, provider, service)
	n := 3 + len(provider) + len(service)
	if n > 255 {
		Check(err != nil, "T10: a service descriptor that is too long is refused")
		Check(bytes.Equal(d.GetBuffer().Bytes(), before), "T10: a refused service descriptor appends nothing")
		return
	}
	Check(err == nil, "T10: a service descriptor that fits is accepted")
	b := append([]byte{0x48, byte(n), kind, byte(len(provider))}, provider...)
	b = append(append(b, byte(len(service))), service...)
	Check(bytes.Equal(d.GetBuffer().Bytes(), append(before, b...)), "T10: the service descriptor's tag, lengths, type and names")
}

func NetworkName() {
	d := table.NewDescriptor()
	d.GetBuffer().Write(AnyBytes())
	before := append([]byte(nil), d.GetBuffer().Bytes()...)
	name := AnyString()
	err := d.NetworkName(name)
	if len(name) > 255 {
		Check(err != nil, "T10: a network name that is too long is refused")
		Check(bytes.Equal(d.GetBuffer().Bytes(), before), "T10: a refused network name appends nothing")
		return
	}
	Check(err == nil, "T10: a network name that fits is accepted")
	Check(bytes.Equal(d.GetBuffer().Bytes(), append(append(before, 0x40, byte(len(name))), name...)), "T10: the network name descriptor's tag, length and name")
}

func Country() {
	d := table.NewDescriptor()
	d.GetBuffer().Write(AnyBytes())
	before := append([]byte(nil), d.GetBuffer().Bytes()...)
	on, code := AnyBool(), AnyU32()
	err := d.CountryAvailability(on, code)
	Check(err == nil, "T10: a country descriptor is accepted")
	var flag byte
	if on {
		flag = 0x80
	}
	b := d.GetBuffer().Bytes()
	k := len(before)
	Check(len(b) == k+7 && bytes.Equal(b[:k], before), "T10: a country descriptor is appended")
	Check(b[k] == 0x49 && b[k+2] == flag, "T10: the country descriptor's tag and flag")
	Check(b[k+3] == 0 && b[k+4] == 0 && b[k+5] == byte(code>>8)&15 && b[k+6] == byte(code), "T10: the country descriptor's code")
	Check(int(b[k+1]) == len(b)-k-2, "T10: the country descriptor's length byte counts its body")
}
