package zzaac

import (
	"bytes"

	"github.com/moggle-mog/goav/parser/aac"
	. "github.com/moggle-mog/goav/zzv"
)

// anything: any calls at all.
func anything(p *aac.Parser) {
	for AnyBool() {
		p.Parse(AnyBytes(), AnyByte(), &Sink{Fails: true})
		p.SampleRate()
	}
}

// noNewConfig: any calls, no configuration among them being accepted.
func noNewConfig(p *aac.Parser) {
	for AnyBool() {
		t := AnyByte()
		err := p.Parse(AnyBytes(), t, &Sink{Fails: true})
		Assume(t != 0 || err != nil)
		p.SampleRate()
	}
}

// Unconfigured: without an accepted configuration every frame is refused and nothing is emitted.
func Unconfigured() {
	p := aac.NewParser()
	noNewConfig(p)
	out := &Out{}
	t := AnyByte()
	Assume(t != 0)
	err := p.Parse(AnyBytes(), t, out)
	Check(err != nil, "C01/C02/F04: a frame without an accepted configuration is refused")
	Check(len(out.B) == 0, "C01: a refused frame emits nothing")
}

// Frames: a frame carries the last accepted configuration, whatever came before and between.
func Frames() {
	p := aac.NewParser()
	anything(p)
	cfg := AnyBytes()
	cout := &Out{}
	err := p.Parse(cfg, 0, cout)
	Check(len(cout.B) == 0, "C01: a configuration emits nothing")
	Assume(err == nil)
	ot, sf, ch := cfg[0]>>3, cfg[0]&7<<1|cfg[1]>>7, cfg[1]>>3&15
	noNewConfig(p)
	src := AnyBytes()
	out := &Out{}
	err = p.Parse(src, 1, out)
	n := len(src) + 7
	if err != nil {
		Check(len(out.B) == 0, "C01: a refused frame emits nothing")
		Check(len(src) == 0 || n > 0x1fff, "C01: a frame that fits is accepted")
		return
	}
	Check(n <= 0x1fff, "C01/F04: the frame must fit the 13-bit length")
	want := []byte{0xff, 0xf1, (ot-1)&3<<6 | sf<<2 | ch>>2&1, ch&3<<6 | byte(n>>11), byte(n >> 3), byte(n)&7<<5 | 0x1f, 0xfc}
	Check(len(out.B) == n, "C01: header and frame, nothing else")
	Check(bytes.Equal(out.B[:7], want), "C01: ADTS header")
	Check(bytes.Equal(out.B[7:], src), "C01: frame unchanged")
}

func rate(idx byte) int {
	switch idx {
	case 0:
		return 96000
	case 1:
		return 88200
	case 2:
		return 64000
	case 3:
		return 48000
	case 4:
		return 44100
	case 5:
		return 32000
	case 6:
		return 24000
	case 7:
		return 22050
	case 8:
		return 16000
	case 9:
		return 12000
	case 10:
		return 11025
	case 11:
		return 8000
	case 12:
		return 7350
	}
	return 44100
}

// Config: an accepted configuration determines the sample rate, a rejected one changes nothing.
func Config() {
	p := aac.NewParser()
	anything(p)
	cfg := AnyBytes()
	before := p.SampleRate()
	err := p.Parse(cfg, 0, &Out{})
	if len(cfg) < 2 {
		Check(err != nil, "C02/F04: a configuration of fewer than two bytes is refused")
		Check(p.SampleRate() == before, "C02: a refused configuration changes nothing")
		return
	}
	idx := cfg[0]&7<<1 | cfg[1]>>7
	if idx == 15 {
		Check(err != nil, "C02/F04: the escape sample rate is refused")
		Check(p.SampleRate() == before, "C02: a refused configuration changes nothing")
		return
	}
	Check(err == nil, "C02: any other configuration is accepted")
	want := rate(idx)
	Check(p.SampleRate() == want, "C02: sample rate of the accepted configuration")
	noNewConfig(p)
	Check(p.SampleRate() == want, "C02: sample rate until the next accepted configuration")
}

// Fields: the object type, rate and channels a frame states are those of the last accepted configuration,
// read from its fields, whatever was refused since.
func Fields() {
	p := aac.NewParser()
	anything(p)
	cfg := AnyBytes()
	Assume(p.Parse(cfg, 0, &Out{}) == nil)
	Check(len(cfg) >= 2, "C02/F04: a configuration of fewer than two bytes is refused")
	ot, sf, ch := cfg[0]>>3, cfg[0]&7<<1|cfg[1]>>7, cfg[1]>>3&15
	noNewConfig(p)
	out := &Out{}
	src := AnyBytes()
	if p.Parse(src, 1, out) != nil {
		Check(len(src) == 0 || len(src)+7 > 0x1fff, "C02: the accepted configuration stays in use")
		return
	}
	Assume(len(out.B) >= 7)
	Check(out.B[2]>>6 == (ot-1)&3, "C02: the object type is the first five bits")
	Check(out.B[2]>>2&15 == sf, "C02: the sampling index is the next four bits")
	Check(out.B[2]&1 == ch>>2&1 && out.B[3]>>6 == ch&3, "C02: the channels are the next four bits")
}
