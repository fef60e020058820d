// Package zzgop specifies the GOP cache (G01-G03, F06).
package zzgop

import (
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	. "github.com/moggle-mog/goav/zzv"
)

// The kinds of packets given to the cache.
const (
	kKey      = iota
	kInter    // inter frame
	kVSeq     // video sequence header
	kOther    // video, none of these
	kASeq     // AAC sequence header
	kAudio    // other audio
	kMetadata // metadata
	kUnknown  // any other type of packet
)

func pkt(kind int) *packet.Packet {
	p := &packet.Packet{TimeStamp: AnyU32(), Baseline: AnyU32(), StreamID: AnyU32(), Data: AnyBytes(), Media: AnyBytes()}
	switch kind {
	case kKey, kInter, kVSeq, kOther:
		p.Type = packet.PktVideo
		h := AnyVHdr()
		switch kind {
		case kKey:
			h.Seq, h.Key = false, true
		case kInter:
			h.Seq, h.Key, h.Inter = false, false, true
		case kVSeq:
			h.Seq = true
		default:
			h.Seq, h.Key, h.Inter = false, false, false
		}
		p.Header = h
	case kASeq, kAudio:
		p.Type = packet.PktAudio
		h := AnyAHdr()
		if kind == kASeq {
			h.Aac, h.Seq = true, true
		} else if AnyBool() {
			h.Aac = false
		} else {
			h.Seq = false
		}
		p.Header = h
	case kMetadata:
		p.Type = packet.PktMetadata
	default:
		p.Type = AnyInt()
		Assume(p.Type != packet.PktVideo && p.Type != packet.PktAudio && p.Type != packet.PktMetadata)
		p.Header = AnyVHdr()
	}
	return p
}

// model is what the cache has to hold: the last headers, and the groups from the oldest to the newest.
type model struct {
	n                int
	vseq, aseq, meta *packet.Packet
	groups           [][]*packet.Packet
}

// step writes one packet to both.
func step(c *gop.Cache, m *model, kind int) {
	p := pkt(kind)
	before := *p
	err := c.Write(p)
	Check(p.Type == before.Type && p.Header == before.Header && len(p.Data) == len(before.Data) && len(p.Media) == len(before.Media) &&
		p.TimeStamp == before.TimeStamp && p.Baseline == before.Baseline && p.StreamID == before.StreamID, "G03: caching does not change the packet")
	switch kind {
	case kKey:
		Check(err == nil, "G03: a key frame is accepted")
		if m.n > 0 {
			m.groups = append(m.groups, []*packet.Packet{p})
			if len(m.groups) > m.n {
				m.groups = m.groups[1:]
			}
		}
	case kInter:
		if m.n <= 0 {
			Check(err == nil, "G01: a disabled cache accepts and drops an inter frame")
		} else if len(m.groups) == 0 {
			Check(err != nil, "G03: an inter frame before any key frame is refused")
		} else {
			Check(err == nil, "G03: an inter frame of an open group is accepted")
			l := len(m.groups) - 1
			m.groups[l] = append(m.groups[l], p)
		}
	case kVSeq:
		Check(err == nil, "G03: a video sequence header is accepted")
		m.vseq = p
	case kASeq:
		Check(err == nil, "G03: an AAC sequence header is accepted")
		m.aseq = p
	case kMetadata:
		Check(err == nil, "G03: a metadata packet is accepted")
		m.meta = p
	default:
		Check(err == nil, "G03: any other packet is passed over")
	}
}

// rec records a replay.
type rec struct{ got []*packet.Packet }

func (r *rec) Write(p *packet.Packet) error {
	r.got = append(r.got, p)
	return nil
}

func (m *model) want() []*packet.Packet {
	var w []*packet.Packet
	if m.meta != nil {
		w = append(w, m.meta)
	}
	if m.vseq != nil {
		w = append(w, m.vseq)
	}
	if m.aseq != nil {
		w = append(w, m.aseq)
	}
	for _, g := range m.groups {
		w = append(w, g...)
	}
	return w
}

func replay(c *gop.Cache, m *model) {
	w := m.want()
	for k := 0; k < 2; k++ {
		r := &rec{}
		err := c.SendTo(r)
		Check(err == nil, "G02: a replay to a consumer that accepts everything succeeds")
		Check(len(r.got) == len(w), "G02/G03: the replay sends each packet kept exactly once")
		for i := range w {
			Check(r.got[i] == w[i], "G02/G03: the replay sends metadata, video header, audio header, then the groups from oldest to newest in arrival order, the second time too")
		}
	}
}

// headers writes any subset of the headers, twice each.
func headers(c *gop.Cache, m *model, twice bool) {
	if AnyBool() {
		step(c, m, kVSeq)
	}
	if AnyBool() {
		step(c, m, kASeq)
	}
	if AnyBool() {
		step(c, m, kMetadata)
	}
	if twice {
		step(c, m, kVSeq)
		step(c, m, kASeq)
		step(c, m, kMetadata)
	}
}

func fresh(n int) (*gop.Cache, *model) {
	return gop.NewCache(n), &model{n: n}
}

// short runs keys groups of up to two inter frames through a new cache of n groups.
func short(n, keys int) {
	c, m := fresh(n)
	for i := 0; i < keys; i++ {
		step(c, m, kKey)
		if AnyBool() {
			step(c, m, kInter)
			if AnyBool() {
				step(c, m, kInter)
			}
		}
	}
	replay(c, m)
}

func Short1() { short(1, 3) }
func Short2() { short(2, 3) }
func Short3() { short(3, 4) }

// Headers: headers at any time.
func Headers() {
	c, m := fresh(2)
	headers(c, m, false)
	step(c, m, kKey)
	step(c, m, kAudio)
	headers(c, m, false)
	step(c, m, kInter)
	step(c, m, kOther)
	step(c, m, kUnknown)
	headers(c, m, true)
	replay(c, m)
}

// NoGroups: caches without groups.
func NoGroups() {
	n := AnyInt()
	Assume(n <= 0)
	c, m := fresh(n)
	headers(c, m, false)
	step(c, m, kKey)
	step(c, m, kInter)
	headers(c, m, false)
	step(c, m, kKey)
	replay(c, m)
}

// NoKey: before any key frame.
func NoKey() {
	c, m := fresh(2)
	step(c, m, kInter)
	headers(c, m, false)
	step(c, m, kInter)
	step(c, m, kOther)
	step(c, m, kAudio)
	step(c, m, kUnknown)
	replay(c, m)
	step(c, m, kKey)
	step(c, m, kInter)
	replay(c, m)
}

// others makes any number of calls, in any order, that open no group.
func others(c *gop.Cache) {
	for AnyBool() {
		switch AnyInt() {
		case 1:
			c.Write(pkt(kInter))
		case 2:
			c.Write(pkt(kVSeq))
		case 3:
			c.Write(pkt(kASeq))
		case 4:
			c.Write(pkt(kMetadata))
		case 5:
			c.Write(pkt(kOther))
		case 6:
			c.Write(pkt(kAudio))
		case 7:
			c.Write(pkt(kUnknown))
		default:
			c.SendTo(&sink{})
		}
	}
}

// group opens a group and makes any number of other calls.
func group(c *gop.Cache) {
	c.Write(pkt(kKey))
	others(c)
}

// any runs any history: any number of calls of any kind in any order. The histories are told apart by
// the number of key frames modulo n, below n or not.
func any(c *gop.Cache, n int) {
	others(c)
	if n <= 0 {
		for AnyBool() {
			group(c)
		}
		return
	}
	for i := 0; i < n; i++ {
		if AnyBool() {
			return
		}
		group(c)
	}
	for AnyBool() {
		for i := 0; i < n; i++ {
			group(c)
		}
	}
	for i := 1; i < n; i++ {
		if AnyBool() {
			return
		}
		group(c)
	}
}

// sink is a consumer that may fail at any packet.
type sink struct {
	n             int
	failed, after bool
}

func (s *sink) Write(p *packet.Packet) error {
	if s.failed {
		s.after = true
	}
	if AnyBool() {
		s.failed = true
		return AnyError()
	}
	s.n++
	return nil
}

// Bound: after any history the cache holds at most n groups of 1024 packets, and reports failures.
func bound(n int) {
	c := gop.NewCache(n)
	any(c, n)
	s := &sink{}
	err := c.SendTo(s)
	Check((err != nil) == s.failed, "F06: a replay fails just when the consumer refuses a packet")
	Check(!s.after, "F06: nothing is sent after a failure")
	Check(s.n <= n*1024+3, "G01: at most 1024 packets per group and the three headers are kept")
}
func Bound0() { bound(0) }
func Bound1() { bound(1) }
func Bound2() { bound(2) }
func Bound3() { bound(3) }

// After: after any history, n groups determine the groups of the cache.
func after(n int, each int) {
	c := gop.NewCache(n)
	any(c, n)
	m := &model{n: n}
	for i := 0; i < n; i++ {
		step(c, m, kKey)
		for j := 0; j < each; j++ {
			step(c, m, kInter)
		}
	}
	step(c, m, kMetadata)
	step(c, m, kVSeq)
	step(c, m, kASeq)
	replay(c, m)
}
func After1() { after(1, 2) }
func After2() { after(2, 1) }
func After3() { after(3, 1) }

// Full: a group takes 1024 packets, whatever came before, and refuses the next ones.
func Full() {
	c := gop.NewCache(1)
	any(c, 1)
	Check(c.Write(pkt(kKey)) == nil, "G03: a key frame is accepted")
	n := 1
	for AnyBool() {
		err := c.Write(pkt(kInter))
		Check((err == nil) == (n < 1024), "G01: a group takes 1024 packets and refuses any more")
		if err == nil {
			n++
		}
	}
	c.Write(pkt(kVSeq))
	c.Write(pkt(kASeq))
	c.Write(pkt(kMetadata))
	s := &sum{at: -1}
	err := c.SendTo(s)
	Check(err == nil, "G02: a replay to a consumer that accepts everything succeeds")
	Check(s.n == n+3, "G02/G03: the replay sends each packet of the group once")
}

// sum looks for one packet at one place of a replay.
type sum struct {
	n, at  int
	p      *packet.Packet
	missed bool
}

func (s *sum) Write(p *packet.Packet) error {
	if s.n == s.at && p != s.p {
		s.missed = true
	}
	s.n++
	return nil
}

// inters gives any number of inter frames to the cache and returns how many the group, of n packets,
// holds then.
func inters(c *gop.Cache, n int) int {
	for AnyBool() {
		err := c.Write(pkt(kInter))
		Check((err == nil) == (n < 1024), "G01: a group takes 1024 packets and refuses any more")
		if err == nil {
			n++
		}
	}
	return n
}

// long opens k groups of any length in a cache of n groups, the last n of which are kept, and replays:
// each packet is at its place. The one followed is at any place of the g-th group kept; Headers may come late.
func long(c *gop.Cache, n, k, g int, inner, hdrs bool) {
	drop := k - n
	if drop < 0 {
		drop = 0
	}
	s := &sum{at: -1}
	total := 0
	if hdrs {
		total = 3
	}
	for i := 0; i < k; i++ {
		p := pkt(kKey)
		Check(c.Write(p) == nil, "G03: a key frame is accepted")
		here := i == drop+g
		m := 1
		if here && !inner {
			s.p, s.at = p, total
		}
		m = inters(c, m)
		if here && inner {
			q := pkt(kInter)
			if c.Write(q) == nil {
				s.p, s.at = q, total+m
				m = inters(c, m+1)
			}
		}
		if i >= drop {
			total += m
		}
	}
	if hdrs {
		c.Write(pkt(kASeq))
		c.Write(pkt(kVSeq))
		c.Write(pkt(kMetadata))
	}
	err := c.SendTo(s)
	Check(err == nil, "G02: a replay to a consumer that accepts everything succeeds")
	Check(s.n == total, "G02/G03: the replay sends each packet of the groups kept once")
	Check(!s.missed, "G02/G03: the replay sends the groups from oldest to newest, each in arrival order")
}

func Long1_1_0() { long(gop.NewCache(1), 1, 1, 0, true, false) }

func Key1_1() { long(gop.NewCache(1), 1, 1, 0, false, false) }

func Long1_2_0() { long(gop.NewCache(1), 1, 2, 0, true, false) }

func Key1_2() { long(gop.NewCache(1), 1, 2, 0, false, false) }

func Long2_1_0() { long(gop.NewCache(2), 2, 1, 0, true, false) }

func Key2_1() { long(gop.NewCache(2), 2, 1, 0, false, false) }

func Long2_2_0() { long(gop.NewCache(2), 2, 2, 0, true, false) }

func Long2_2_1() { long(gop.NewCache(2), 2, 2, 1, true, false) }

func Key2_2() { long(gop.NewCache(2), 2, 2, 0, false, false) }

func Long2_3_0() { long(gop.NewCache(2), 2, 3, 0, true, false) }

func Long2_3_1() { long(gop.NewCache(2), 2, 3, 1, true, false) }

func Key2_3() { long(gop.NewCache(2), 2, 3, 0, false, false) }

func Long2_4_0() { long(gop.NewCache(2), 2, 4, 0, true, false) }

func Long2_4_1() { long(gop.NewCache(2), 2, 4, 1, true, false) }

func Key2_4() { long(gop.NewCache(2), 2, 4, 0, false, false) }

func Long3_1_0() { long(gop.NewCache(3), 3, 1, 0, true, false) }

func Key3_1() { long(gop.NewCache(3), 3, 1, 0, false, false) }

func Long3_2_0() { long(gop.NewCache(3), 3, 2, 0, true, false) }

func Long3_2_1() { long(gop.NewCache(3), 3, 2, 1, true, false) }

func Key3_2() { long(gop.NewCache(3), 3, 2, 0, false, false) }

func Long3_3_0() { long(gop.NewCache(3), 3, 3, 0, true, false) }

func Long3_3_1() { long(gop.NewCache(3), 3, 3, 1, true, false) }

func Long3_3_2() { long(gop.NewCache(3), 3, 3, 2, true, false) }

func Key3_3() { long(gop.NewCache(3), 3, 3, 0, false, false) }

func Long3_4_0() { long(gop.NewCache(3), 3, 4, 0, true, false) }

func Long3_4_1() { long(gop.NewCache(3), 3, 4, 1, true, false) }

func Long3_4_2() { long(gop.NewCache(3), 3, 4, 2, true, false) }

func Key3_4() { long(gop.NewCache(3), 3, 4, 0, false, false) }

func Long3_6_0() { long(gop.NewCache(3), 3, 6, 0, true, false) }

func Long3_6_1() { long(gop.NewCache(3), 3, 6, 1, true, false) }

func Long3_6_2() { long(gop.NewCache(3), 3, 6, 2, true, false) }

func Key3_6() { long(gop.NewCache(3), 3, 6, 0, false, false) }

func Long5_4_0() { long(gop.NewCache(5), 5, 4, 0, true, false) }

func Long5_4_1() { long(gop.NewCache(5), 5, 4, 1, true, false) }

func Long5_4_2() { long(gop.NewCache(5), 5, 4, 2, true, false) }

func Long5_4_3() { long(gop.NewCache(5), 5, 4, 3, true, false) }

func Key5_4() { long(gop.NewCache(5), 5, 4, 0, false, false) }

func Long5_6_0() { long(gop.NewCache(5), 5, 6, 0, true, false) }

func Long5_6_4() { long(gop.NewCache(5), 5, 6, 4, true, false) }

func Long5_10_0() { long(gop.NewCache(5), 5, 10, 0, true, false) }

func Long5_10_4() { long(gop.NewCache(5), 5, 10, 4, true, false) }

func Key5_10() { long(gop.NewCache(5), 5, 10, 0, false, false) }

func AfterLong1_0() {
	c := gop.NewCache(1)
	any(c, 1)
	long(c, 1, 1, 0, true, true)
}

func AfterLong2_0() {
	c := gop.NewCache(2)
	any(c, 2)
	long(c, 2, 2, 0, true, true)
}

func AfterLong2_1() {
	c := gop.NewCache(2)
	any(c, 2)
	long(c, 2, 2, 1, true, true)
}

func AfterLong3_1() {
	c := gop.NewCache(3)
	any(c, 3)
	long(c, 3, 3, 1, true, true)
}
