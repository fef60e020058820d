package zzflv

import (
	"bytes"
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	. "github.com/moggle-mog/goav/zzv"
)

// The AMF functions are specified and checked on their own (A01-A15). Here they stand for: an arbitrary
// value's form is written, or nothing usable and an error; the leading command is cut off, or an error.
var (
	watch   bool // the calls below belong to the step under examination
	given   []byte
	asked   int
	cut     int
	encodes int
	object  amf.Object
	forms   [3][]byte
)

//contract amf.DelMetaHeader
func delMetaHeader(p []byte, d amf.Decoder) ([]byte, error) {
	if !watch {
		if AnyBool() {
			return nil, AnyError()
		}
		k := AnyLen()
		Assume(k <= len(p))
		return p[k:], nil
	}
	if encodes > 0 {
		Check(bytes.Equal(p, cat(forms[0], forms[1], forms[2])), "the metadata payload is the command, the event name and the object")
		return p[len(forms[0]):], nil
	}
	asked++
	Check(bytes.Equal(p, given), "the command is stripped from the whole metadata payload")
	if AnyBool() {
		return nil, AnyError()
	}
	cut = AnyLen()
	Assume(cut <= len(p))
	return p[cut:], nil
}

//contract (*amf.EnDecAMF0).Encode
func encode(ed *amf.EnDecAMF0, w io.Writer, val interface{}) (int, error) {
	b := AnyBytes()
	if AnyBool() {
		return 0, AnyError()
	}
	if watch {
		switch encodes {
		case 0:
			s, ok := val.(string)
			Check(ok && s == "@setDataFrame", "metadata starts with the command")
			forms[0] = b
		case 1:
			s, ok := val.(string)
			Check(ok && s == "onMetaData", "the command is followed by the event name")
			forms[1] = b
		case 2:
			_, ok := val.(amf.Object)
			Check(ok, "the event name is followed by the object")
			forms[2] = b
		default:
			Check(false, "nothing follows the object")
		}
		encodes++
	}
	return w.Write(b)
}

func cat(ps ...[]byte) []byte {
	var r []byte
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

func anyPacket() *packet.Packet {
	return &packet.Packet{Type: AnyInt(), TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
}

func anything(m *flv.Mixer) {
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyU32())
		case 1:
			m.SaveMetadata(amf.Object{})
		case 2:
			m.SaveAVCHeader(anyPacket())
		case 3:
			m.SaveAACHeader(anyPacket())
		case 4:
			m.SetFlvHeader()
		case 5:
			m.SetWriter(&Sink{Fails: true})
		}
	}
}

// nothingSaved: any calls, none of which saves a header.
func nothingSaved(m *flv.Mixer) {
	for AnyBool() {
		switch AnyInt() {
		case 0:
			m.Mux(anyPacket(), AnyU32())
		case 1:
			err := m.SaveMetadata(amf.Object{})
			Assume(err != nil)
		case 2:
			err := m.SaveAVCHeader(anyPacket())
			Assume(err != nil)
		case 3:
			err := m.SaveAACHeader(anyPacket())
			Assume(err != nil)
		case 4:
			m.SetFlvHeader()
		case 5:
			m.SetWriter(&Sink{Fails: true})
		}
	}
}

func tag(kind byte, body []byte, ts uint32) []byte {
	n := len(body)
	b := []byte{kind, byte(n >> 16), byte(n >> 8), byte(n), byte(ts >> 16), byte(ts >> 8), byte(ts), byte(ts >> 24), 0, 0, 0}
	b = append(b, body...)
	t := n + 11
	return append(b, byte(t>>24), byte(t>>16), byte(t>>8), byte(t))
}

// inBuffer makes the payload a part of a larger buffer.
func inBuffer(p *packet.Packet) (buf, keep []byte) {
	buf = AnyBytes()
	n := AnyLen()
	Assume(n <= len(buf))
	keep = cat(buf)
	p.Data = buf[:n]
	return
}

// Media: an audio or video packet becomes exactly one tag.
func Media() {
	m := flv.NewMixer(&Sink{Fails: true})
	anything(m)
	p := anyPacket()
	buf, keep := inBuffer(p)
	var kind byte = 9
	p.Type = packet.PktVideo
	if AnyBool() {
		kind = 8
		p.Type = packet.PktAudio
	}
	before := *p
	data := cat(p.Data)
	ts := AnyU32()
	o := &Out{}
	m.SetWriter(o)
	err := m.Mux(p, ts)
	Check((err == nil) == (len(data) < 1<<24), "exactly the payloads that fit 24 bits are accepted")
	if err == nil {
		Check(bytes.Equal(o.B, tag(kind, data, ts)), "one tag with the payload's type, size and time")
	} else {
		Check(len(o.B) == 0, "a refused payload writes nothing")
	}
	unchanged(p, &before, data)
	Check(bytes.Equal(buf, keep), "the bytes around the payload are unchanged")
}

func unchanged(p, before *packet.Packet, data []byte) {
	Check(bytes.Equal(p.Data, data), "the caller's payload bytes are unchanged")
	Check(p.Type == before.Type && p.TimeStamp == before.TimeStamp && p.Baseline == before.Baseline && p.StreamID == before.StreamID, "the caller's packet is unchanged")
	Check(len(p.Data) == len(before.Data) && len(p.Media) == len(before.Media), "the caller's slices are unchanged")
}

// Metadata: a metadata packet becomes exactly one script data tag without the command.
func Metadata() {
	m := flv.NewMixer(&Sink{Fails: true})
	anything(m)
	p := anyPacket()
	buf, keep := inBuffer(p)
	p.Type = packet.PktMetadata
	before := *p
	data := cat(p.Data)
	ts := AnyU32()
	o := &Out{}
	m.SetWriter(o)
	watch, given, asked, encodes = true, data, 0, 0
	err := m.Mux(p, ts)
	watch = false
	Check(asked == 1, "the command is stripped once")
	if err == nil {
		body := data[cut:]
		Check(len(body) < 1<<24, "only payloads that fit 24 bits are accepted")
		Check(bytes.Equal(o.B, tag(18, body, ts)), "one script data tag with the payload's size and time")
	} else {
		Check(len(o.B) == 0, "a refused payload writes nothing")
	}
	unchanged(p, &before, data)
	Check(bytes.Equal(buf, keep), "the bytes around the payload are unchanged")
}

// Other: a packet of an unknown type is refused.
func Other() {
	m := flv.NewMixer(&Sink{Fails: true})
	anything(m)
	p := anyPacket()
	Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio && p.Type != packet.PktMetadata)
	o := &Out{}
	m.SetWriter(o)
	err := m.Mux(p, AnyU32())
	Check(err != nil, "an unknown packet type is refused")
	Check(len(o.B) == 0, "a refused packet writes nothing")
}

type saved struct{ md, avc, aac []byte }

func (s *saved) saveMD(m *flv.Mixer) {
	watch, asked, encodes = true, 0, 0
	err := m.SaveMetadata(amf.Object{})
	watch = false
	Assume(err == nil)
	Check(encodes == 3, "the command, the event name and the object are written")
	s.md = tag(18, cat(forms[1], forms[2]), 0)
}

func (s *saved) saveAVC(m *flv.Mixer) {
	p := anyPacket()
	p.Type = packet.PktVideo
	data := p.Data
	Assume(len(data) < 1<<24)
	err := m.SaveAVCHeader(p)
	Check(err == nil, "a video sequence header is saved")
	s.avc = tag(9, data, 0)
}

func (s *saved) saveAAC(m *flv.Mixer) {
	p := anyPacket()
	p.Type = packet.PktAudio
	data := p.Data
	Assume(len(data) < 1<<24)
	err := m.SaveAACHeader(p)
	Check(err == nil, "an audio sequence header is saved")
	s.aac = tag(8, data, 0)
}

func (s *saved) replay(m *flv.Mixer) {
	o := &Out{}
	m.SetWriter(o)
	err := m.SetFlvHeader()
	Check(err == nil, "the preamble is written")
	var flags byte
	if s.avc != nil {
		flags |= 1
	}
	if s.aac != nil {
		flags |= 4
	}
	head := []byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 9, 0, 0, 0, 0}
	Check(bytes.Equal(o.B, cat(head, s.md, s.avc, s.aac)), "file header, metadata, video header, audio header")
}

// Fresh: any subset of the headers is saved.
func Fresh() {
	m := flv.NewMixer(&Sink{Fails: true})
	s := &saved{}
	nothingSaved(m)
	if AnyBool() {
		s.saveAVC(m)
	}
	if AnyBool() {
		s.saveAAC(m)
	}
	if AnyBool() {
		s.saveMD(m)
	}
	nothingSaved(m)
	s.replay(m)
	s.replay(m)
}

// Replaced1..3: after any history, each header is saved again, in different orders.
func Replaced1() {
	m := flv.NewMixer(&Sink{Fails: true})
	s := &saved{}
	anything(m)
	s.saveAVC(m)
	s.saveAAC(m)
	s.saveMD(m)
	nothingSaved(m)
	s.replay(m)
}

func Replaced2() {
	m := flv.NewMixer(&Sink{Fails: true})
	s := &saved{}
	anything(m)
	s.saveAAC(m)
	s.saveMD(m)
	s.saveAVC(m)
	nothingSaved(m)
	s.replay(m)
}

func Replaced3() {
	m := flv.NewMixer(&Sink{Fails: true})
	s := &saved{}
	anything(m)
	s.saveMD(m)
	s.saveAVC(m)
	s.saveAAC(m)
	nothingSaved(m)
	s.replay(m)
}

// Failing: an output that fails is reported and not written to again.
func Failing() {
	m := flv.NewMixer(&Sink{Fails: true})
	anything(m)
	s := &Sink{Fails: true}
	m.SetWriter(s)
	err := m.Mux(anyPacket(), AnyU32())
	Check(!s.Failed || err != nil, "a failing output is reported by the muxer")
	Check(!s.After, "nothing is written after a failed write")
}

func FailingPreamble() {
	m := flv.NewMixer(&Sink{Fails: true})
	anything(m)
	s := &Sink{Fails: true}
	m.SetWriter(s)
	err := m.SetFlvHeader()
	Check(!s.Failed || err != nil, "a failing output is reported by the preamble")
	Check(!s.After, "nothing is written after a failed write")
}

// Demux: the media tag header is decoded field by field.
func DemuxVideo() {
	d := flv.NewDemuxer()
	p := anyPacket()
	p.Type = packet.PktVideo
	data := p.Data
	before := cat(data)
	err := d.Demux(p)
	Check((err == nil) == (len(data) >= 5), "F03/F04: exactly the video payloads of at least five bytes are accepted")
	Check(bytes.Equal(p.Data, before), "F03: the payload is unchanged")
	if err != nil {
		return
	}
	h, ok := p.Header.(packet.VideoPacketHeader)
	Check(ok, "F03: a video packet gets a video header")
	video(h, data)
	if f := data[0] >> 4; f == 1 || f == 2 {
		Check(bytes.Equal(p.Media, data[5:]), "F03: the media follow the five-byte header")
	} else {
		Check(bytes.Equal(p.Media, data[1:]), "F03: the media follow the one-byte header")
	}
}

func video(h packet.VideoPacketHeader, data []byte) {
	f, c := data[0]>>4, data[0]&15
	Check(h.IsKeyFrame() == (f == 1), "F03: key frames have frame type 1")
	Check(h.IsInterFrame() == (f == 2), "F03: inter frames have frame type 2")
	Check(h.CodecID() == c, "F03: the codec is the low nibble")
	Check(h.IsCodecAvc() == (c == 7), "F03: AVC is codec 7")
	Check(h.IsSeqHdr() == (f == 1 && data[1] == 0), "F03: sequence headers are key frames of packet type 0")
	Check(h.IsEndOfSeq() == (f == 1 && data[1] == 2), "F03: ends of sequence are key frames of packet type 2")
	var ct int32
	if (f == 1 || f == 2) && data[1] == 1 {
		ct = int32(data[2])<<16 + int32(data[3])<<8 + int32(data[4])
		if data[2] >= 0x80 {
			ct -= 1 << 24
		}
	}
	Check(h.CompositionTime() == ct, "F03: the composition time is the signed 24-bit field of NAL unit packets")
}

func DemuxAudio() {
	d := flv.NewDemuxer()
	p := anyPacket()
	p.Type = packet.PktAudio
	data := p.Data
	before := cat(data)
	err := d.Demux(p)
	ok := len(data) >= 2 && (data[0]>>4 == 10 || data[0]>>4 == 2)
	Check((err == nil) == ok, "F03/F04: exactly the AAC and MP3 payloads of at least two bytes are accepted")
	Check(bytes.Equal(p.Data, before), "F03: the payload is unchanged")
	if err != nil {
		return
	}
	h, ok := p.Header.(packet.AudioPacketHeader)
	Check(ok, "F03: an audio packet gets an audio header")
	audio(h, data)
	if data[0]>>4 == 10 {
		Check(bytes.Equal(p.Media, data[2:]), "F03: AAC data follow the two-byte header")
	} else {
		Check(bytes.Equal(p.Media, data[1:]), "F03: MP3 data follow the one-byte header")
	}
}

func audio(h packet.AudioPacketHeader, data []byte) {
	f := data[0] >> 4
	Check(h.SoundFormat() == f, "F03: the format is the high nibble")
	Check(h.IsSoundAAC() == (f == 10), "F03: AAC is format 10")
	Check(h.IsSoundMP3() == (f == 2), "F03: MP3 is format 2")
	if f == 10 {
		Check(h.AACType() == data[1], "F03: the AAC packet type is the second byte")
		Check(h.IsAACSeqHdr() == (data[1] == 0), "F03: AAC sequence headers have packet type 0")
	} else {
		Check(h.AACType() == 0, "F03: only AAC has a packet type")
	}
}

// Reused: a tag that parsed something else before reports only the present header.
func Reused() {
	t := &flv.Tag{}
	for AnyBool() {
		t.ParseMediaTagHeader(AnyBytes(), AnyInt())
	}
	data := AnyBytes()
	if AnyBool() {
		n, err := t.ParseMediaTagHeader(data, packet.PktVideo)
		if err == nil {
			f := data[0] >> 4
			Check(n == 5 || f != 1 && f != 2, "F03: key and inter frames have a five-byte header")
			Check(n == 1 || f == 1 || f == 2, "F03: other frames have a one-byte header")
			video(t, data)
			Check(t.SoundFormat() == 0, "F03: no audio format survives")
		}
	} else {
		n, err := t.ParseMediaTagHeader(data, packet.PktAudio)
		if err == nil {
			Check(n == 2 || data[0]>>4 != 10, "F03: AAC has a two-byte header")
			Check(n == 1 || data[0]>>4 == 10, "F03: MP3 has a one-byte header")
			audio(t, data)
			Check(t.CodecID() == 0, "F03: no video codec survives")
			Check(!t.IsKeyFrame() && !t.IsInterFrame(), "F03: no frame type survives")
		}
	}
}

func DemuxOther() {
	d := flv.NewDemuxer()
	p := anyPacket()
	data := cat(p.Data)
	Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio)
	err := d.Demux(p)
	Check((err == nil) == (p.Type == packet.PktMetadata), "F03/F04: metadata is accepted, unknown types are not")
	if err == nil {
		Check(bytes.Equal(p.Media, data), "F03: the media of a metadata packet are its payload")
	}
}

// input: data of any length, and a reader that has delivered it, which is what memory may be reserved for.
func input() ([]byte, *bytes.Reader) {
	b := AnyBytes()
	r := bytes.NewReader(b)
	r.Read(make([]byte, len(b)))
	Budget(r)
	return b, r
}

func part(b []byte) []byte {
	n := AnyLen()
	Assume(n <= len(b))
	return b[:n]
}

// Memory: any calls on payloads no longer than the given data reserve memory for no more than that.
func Memory() {
	b, r := input()
	m := flv.NewMixer(&Sink{Fails: true})
	for AnyBool() {
		p := anyPacket()
		p.Data = part(b)
		switch AnyInt() {
		case 0:
			m.Mux(p, AnyU32())
		case 1:
			m.SaveAVCHeader(p)
		case 2:
			m.SaveAACHeader(p)
		case 3:
			m.SetFlvHeader()
		}
	}
	r.Len()
}
