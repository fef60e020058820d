package zzv

// VHdr and AHdr are the most general media headers: any fixed answers.
type VHdr struct {
	Key, Inter, Seq, Eos, Avc bool
	Codec                     uint8
	CT                        int32
}

func (h *VHdr) IsKeyFrame() bool       { return h.Key }
func (h *VHdr) IsInterFrame() bool     { return h.Inter }
func (h *VHdr) IsSeqHdr() bool         { return h.Seq }
func (h *VHdr) IsEndOfSeq() bool       { return h.Eos }
func (h *VHdr) IsCodecAvc() bool       { return h.Avc }
func (h *VHdr) CodecID() uint8         { return h.Codec }
func (h *VHdr) CompositionTime() int32 { return h.CT }

type AHdr struct {
	Format, Type  uint8
	Aac, Mp3, Seq bool
}

func (h *AHdr) SoundFormat() uint8 { return h.Format }
func (h *AHdr) AACType() uint8     { return h.Type }
func (h *AHdr) IsSoundAAC() bool   { return h.Aac }
func (h *AHdr) IsSoundMP3() bool   { return h.Mp3 }
func (h *AHdr) IsAACSeqHdr() bool  { return h.Seq }

func AnyVHdr() *VHdr {
	return &VHdr{Key: AnyBool(), Inter: AnyBool(), Seq: AnyBool(), Eos: AnyBool(), Avc: AnyBool(), Codec: AnyByte(), CT: AnyI32()}
}
func AnyAHdr() *AHdr {
	return &AHdr{Format: AnyByte(), Type: AnyByte(), Aac: AnyBool(), Mp3: AnyBool(), Seq: AnyBool()}
}

// Sink is a writer that may fail at any write. It keeps what it was given.
type Sink struct {
	B      []byte
	N      int
	Writes int
	Fails  bool // whether it may fail
	Failed bool
	After  bool // written to after a failure
}

func (s *Sink) Write(p []byte) (int, error) {
	if s.Failed {
		s.After = true
	}
	if s.Fails && AnyBool() {
		s.Failed = true
		k := AnyLen()
		Assume(k <= len(p))
		return k, AnyError()
	}
	s.Writes++
	s.N += len(p)
	return len(p), nil
}

// Out collects everything written to it.
type Out struct{ B []byte }

func (o *Out) Write(p []byte) (int, error) {
	o.B = append(o.B, p...)
	return len(p), nil
}
