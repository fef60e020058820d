// Package zzfree runs the demuxer and the codec parsers on anything, in any order: nothing may panic and
// every loop must end.
package zzfree

import (
	"bytes"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	. "github.com/moggle-mog/goav/zzv"
)

func anyPacket() *packet.Packet {
	return &packet.Packet{Type: AnyInt(), TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
}

// Demux: every payload, twice through the same packet.
func Demux() {
	d := flv.NewDemuxer()
	p := anyPacket()
	for AnyBool() {
		p.Type = AnyInt()
		p.Data = AnyBytes()
		if d.Demux(p) == nil && p.Type != packet.PktMetadata {
			switch h := p.Header.(type) {
			case packet.VideoPacketHeader:
				h.IsSeqHdr()
				h.IsEndOfSeq()
				h.CompositionTime()
			case packet.AudioPacketHeader:
				h.AACType()
				h.IsAACSeqHdr()
			}
		}
		if AnyBool() {
			p = anyPacket()
		}
	}
}

// Pipeline: demuxed packets of any kind go to one codec parser.
func Pipeline() {
	d := flv.NewDemuxer()
	c := parser.NewCodecParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p := anyPacket()
		if AnyBool() {
			r, err := c.SampleRate()
			Check(err != nil || r > 0, "T09: sample rates are positive")
		}
		if d.Demux(p) == nil {
			c.Parse(p, w)
		}
	}
}

// Direct: packets with any header go to one codec parser.
func Direct() {
	c := parser.NewCodecParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p := anyPacket()
		switch AnyInt() {
		case 0:
			p.Header = AnyVHdr()
			Assume(p.Type != packet.PktAudio)
		case 1:
			p.Header = AnyAHdr()
			Assume(p.Type != packet.PktVideo)
		}
		c.Parse(p, w)
	}
}

// AVC, AAC and MP3: one parser each, fed with anything.
func AVC() {
	p := h264.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyBool(), w)
	}
}

func AAC() {
	p := aac.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyByte(), w)
		p.SampleRate()
	}
}

func MP3() {
	p := mp3.NewParser()
	for AnyBool() {
		p.Parse(AnyBytes())
		p.SampleRate()
	}
}

// FailingAVC, FailingAAC: a failing output is reported and not written to again.
func FailingAVC() {
	p := h264.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyBool(), w)
	}
	s := &Sink{Fails: true}
	err := p.Parse(AnyBytes(), AnyBool(), s)
	Check(!s.Failed || err != nil, "F06: a failing output is reported by the H.264 conversion")
	Check(!s.After, "F06: nothing is written after a failed write")
}

func FailingAAC() {
	p := aac.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyByte(), w)
	}
	s := &Sink{Fails: true}
	err := p.Parse(AnyBytes(), AnyByte(), s)
	Check(!s.Failed || err != nil, "F06: a failing output is reported by the AAC conversion")
	Check(!s.After, "F06: nothing is written after a failed write")
}

// input: data of any length, and a reader that has delivered it, which is what memory may be reserved for.
func input() ([]byte, *bytes.Reader) {
	b := AnyBytes()
	r := bytes.NewReader(b)
	r.Read(make([]byte, len(b)))
	Budget(r)
	return b, r
}

func part(b []byte) []byte {
	n := AnyLen()
	Assume(n <= len(b))
	return b[:n]
}

// MemoryAVC, MemoryAAC, MemoryMP3, MemoryCodec: any calls on inputs no longer than the given one reserve
// memory for no more than that.
func MemoryAVC() {
	b, r := input()
	p := h264.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(part(b), AnyBool(), w)
	}
	r.Len()
}

func MemoryAAC() {
	b, r := input()
	p := aac.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(part(b), AnyByte(), w)
	}
	r.Len()
}

func MemoryMP3() {
	b, r := input()
	p := mp3.NewParser()
	for AnyBool() {
		p.Parse(part(b))
	}
	r.Len()
}

func MemoryCodec() {
	b, r := input()
	d := flv.NewDemuxer()
	c := parser.NewCodecParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p := anyPacket()
		p.Data = part(b)
		if d.Demux(p) == nil {
			c.Parse(p, w)
		}
	}
	r.Len()
}

// UnchangedAVC, UnchangedAAC, UnchangedMP3: converting a packet's media leaves the caller's bytes as they are.
func UnchangedAVC() {
	p := h264.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyBool(), w)
	}
	b := AnyBytes()
	before := append([]byte(nil), b...)
	p.Parse(b, AnyBool(), w)
	Check(bytes.Equal(b, before), "F05: the H.264 conversion leaves the media")
}

func UnchangedAAC() {
	p := aac.NewParser()
	w := &Sink{Fails: true}
	for AnyBool() {
		p.Parse(AnyBytes(), AnyByte(), w)
	}
	b := AnyBytes()
	before := append([]byte(nil), b...)
	p.Parse(b, AnyByte(), w)
	Check(bytes.Equal(b, before), "F05: the AAC conversion leaves the media")
	for AnyBool() {
		p.Parse(AnyBytes(), AnyByte(), w)
	}
	Check(bytes.Equal(b, before), "F05: the AAC conversion leaves the media for good")
}

func UnchangedMP3() {
	p := mp3.NewParser()
	b := AnyBytes()
	before := append([]byte(nil), b...)
	p.Parse(b)
	Check(bytes.Equal(b, before), "F05: the MP3 parser leaves the media")
}
