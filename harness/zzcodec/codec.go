package zzcodec

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	. "github.com/moggle-mog/goav/zzv"
)

// The parsers themselves are checked elsewhere; here only which of them gets what.
var (
	watch       bool
	calls       int
	kind        byte
	data        []byte
	arg         uint8
	sink        io.Writer
	result      error
	avc         *h264.Parser
	adts        *aac.Parser
	mpeg        *mp3.Parser
	resultIsNil bool
)

func outcome() error {
	resultIsNil = AnyBool()
	if resultIsNil {
		return nil
	}
	return AnyError()
}

//contract (*parser/h264.Parser).Parse
func parseAVC(p *h264.Parser, b []byte, isSeq bool, w io.Writer) error {
	if watch {
		calls, kind, data, sink, avc = calls+1, 'v', b, w, p
		arg = 0
		if isSeq {
			arg = 1
		}
	}
	if w != nil && AnyBool() {
		w.Write(AnyBytes())
	}
	return outcome()
}

//contract (*parser/aac.Parser).Parse
func parseAAC(p *aac.Parser, b []byte, t uint8, w io.Writer) error {
	if watch {
		calls, kind, data, sink, adts, arg = calls+1, 'a', b, w, p, t
	}
	if w != nil && AnyBool() {
		w.Write(AnyBytes())
	}
	return outcome()
}

//contract (*parser/mp3.Parser).Parse
func parseMP3(p *mp3.Parser, b []byte) error {
	if watch {
		calls, kind, data, mpeg = calls+1, 'm', b, p
	}
	return outcome()
}

func anyPacket(v bool) *packet.Packet {
	p := &packet.Packet{Type: AnyInt(), TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
	if v {
		p.Header = AnyVHdr()
		Assume(p.Type != packet.PktAudio)
	} else {
		p.Header = AnyAHdr()
		Assume(p.Type != packet.PktVideo)
	}
	return p
}

func anything(c *parser.CodecParser) {
	for AnyBool() {
		if AnyBool() {
			c.Parse(anyPacket(AnyBool()), &Sink{Fails: true})
		} else {
			c.SampleRate()
		}
	}
}

type out struct{ n int }

func (o *out) Write(p []byte) (int, error) { o.n++; return len(p), nil }

func parse(c *parser.CodecParser, p *packet.Packet) (error, *out) {
	o := &out{}
	watch, calls = true, 0
	err := c.Parse(p, o)
	watch = false
	return err, o
}

func routed(k byte, p *packet.Packet, o *out, err error) {
	Check(calls == 1, "exactly one parser is used")
	Check(kind == k, "the parser the header names is used")
	Check(bytes.Equal(data, p.Media), "the parser gets the packet's media")
	Check((err == nil) == resultIsNil, "the parser's outcome is the result")
	if k != 'm' {
		Check(sink == io.Writer(o), "the parser writes to the given output")
	}
}

func refused(o *out, err error) {
	Check(err != nil, "the packet is refused")
	Check(calls == 0, "no parser is used")
	Check(o.n == 0, "nothing is written")
}

// Video packets.
func Video() {
	c := parser.NewCodecParser()
	anything(c)
	p := anyPacket(true)
	p.Type = packet.PktVideo
	Assume(len(p.Media) > 0) // every parser refuses no data
	h := p.Header.(*VHdr)
	err, o := parse(c, p)
	if h.Avc {
		routed('v', p, o, err)
		Check((arg == 1) == h.Seq, "sequence headers are parsed as such")
		first := avc
		anything(c)
		q := anyPacket(true)
		q.Type = packet.PktVideo
		Assume(len(q.Media) > 0 && q.Header.(*VHdr).Avc)
		err, o = parse(c, q)
		routed('v', q, o, err)
		Check(avc == first, "one parser serves the whole video stream")
	} else {
		refused(o, err)
	}
}

// Audio packets.
func Audio() {
	c := parser.NewCodecParser()
	anything(c)
	p := anyPacket(false)
	p.Type = packet.PktAudio
	Assume(len(p.Media) > 0) // every parser refuses no data
	h := p.Header.(*AHdr)
	err, o := parse(c, p)
	if h.Aac {
		routed('a', p, o, err)
		Check(arg == h.Type, "the AAC packet type is passed on")
		first := adts
		anything(c)
		q := anyPacket(false)
		q.Type = packet.PktAudio
		Assume(len(q.Media) > 0 && q.Header.(*AHdr).Aac)
		err, o = parse(c, q)
		routed('a', q, o, err)
		Check(adts == first, "one parser serves the whole AAC stream")
	} else if h.Mp3 {
		routed('m', p, o, err)
		Check(o.n == 0, "MP3 audio writes nothing")
		first := mpeg
		anything(c)
		q := anyPacket(false)
		q.Type = packet.PktAudio
		Assume(len(q.Media) > 0 && q.Header.(*AHdr).Mp3 && !q.Header.(*AHdr).Aac)
		err, o = parse(c, q)
		routed('m', q, o, err)
		Check(mpeg == first, "one parser serves the whole MP3 stream")
	} else {
		refused(o, err)
	}
}

// Refused: no header, no media, or no audio or video packet.
func Refused() {
	c := parser.NewCodecParser()
	anything(c)
	p := anyPacket(AnyBool())
	if AnyBool() {
		p.Header = nil
	} else if AnyBool() {
		p.Media = nil
	} else {
		Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio)
	}
	err, o := parse(c, p)
	refused(o, err)
}

// Rate: the sample rate is that of the audio parser in use.
func Rate() {
	c := parser.NewCodecParser()
	r, err := c.SampleRate()
	Check(err != nil && r == 0, "without audio there is no sample rate")
	for AnyBool() {
		p := anyPacket(AnyBool())
		Assume(p.Type != packet.PktAudio)
		c.Parse(p, &Sink{Fails: true})
	}
	_, err = c.SampleRate()
	Check(err != nil, "video alone has no sample rate")
	anything(c)
	p := anyPacket(false)
	p.Type = packet.PktAudio
	Assume(len(p.Media) > 0) // every parser refuses no data
	p.Header.(*AHdr).Aac = true
	parse(c, p)
	r, err = c.SampleRate()
	Check(err == nil && r == adts.SampleRate(), "the sample rate is the AAC parser's")
}
