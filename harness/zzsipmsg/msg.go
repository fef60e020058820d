// Package zzsipmsg specifies how a SIP message is read from a connection; the parsers of its parts are replaced
// by contracts. Nothing here is executed.
package zzsipmsg

import (
	"bufio"
	"bytes"
	"strconv"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

// The parsers of the parts are replaced: each may yield anything.

//contract sips.NewSIPUser
func newUser(s string) *sips.SIPUser { return &sips.SIPUser{Src: s} }

//contract sips.NewSIPVia
func newVia(s string) *sips.SIPVia { return &sips.SIPVia{Src: s} }

//contract sips.NewSIPCseq
func newCseq(s string) *sips.SIPCseq { return &sips.SIPCseq{Src: s} }

//contract (*sips.SIP).ParseFirstLine
func firstLine(s *sips.SIP, line []byte) error {
	Check(s != nil, "S01: a start line has its message")
	if AnyBool() {
		return AnyError()
	}
	s.IsResponse = AnyBool()
	s.Request = &sips.SIPRequest{Src: AnyString()}
	return nil
}

// length is the Content-Length every message states, if exact is set.
var (
	exact  bool
	length string
)

//contract (*sips.SIP).ParseHeader
func header(s *sips.SIP, line []byte) {
	Check(s.Headers != nil, "S01: a header line has its table")
	if !exact {
		s.Headers[AnyString()] = []string{AnyString()}
	}
}

// Free: any messages, one after the other, read into one object with any headers.
func Free() {
	Coarse()
	s := sips.NewSIP()
	exact = false
	h, ok := AnyValue().(sips.SIPHeader)
	Assume(ok && h != nil)
	s.SetHeader(h)
	r := bufio.NewReader(bytes.NewReader(AnyBytes()))
	Budget(r)
	for AnyBool() {
		s.Parse(r)
	}
}

// Failing: the same on a connection that delivers its data in pieces and may fail.
func Failing() {
	Coarse()
	s := sips.NewSIP()
	exact = false
	h, ok := AnyValue().(sips.SIPHeader)
	Assume(ok && h != nil)
	s.SetHeader(h)
	r := bytes.NewReader(AnyBytes())
	torn := false
	Pieces(r, &torn)
	b := bufio.NewReader(r)
	s.Parse(b)
}

// Body: any message with a Content-Length of any text, followed by anything.
func Body() {
	Peel()
	s := sips.NewSIP()
	exact, length = true, AnyString()
	s.Headers["content-length"] = []string{length}
	in := AnyBytes()
	src := bytes.NewReader(in)
	err := s.Parse(bufio.NewReader(src))
	n, e := strconv.Atoi(length)
	if err != nil {
		return
	}
	Check(e == nil && n >= 0, "S05: a malformed Content-Length is an error")
	Assume(src.Len() >= 0) // a fact of bytes.Reader
	taken := len(in) - src.Len()
	head, body := s.LayerContents(), s.Payload()
	Check(taken == len(head)+len(body), "S05: every byte taken is kept")
	Check(bytes.Equal(append(append([]byte(nil), head...), body...), in[:taken]), "S05: the bytes taken are kept in order")
	Check(len(body) <= n || len(bytes.Trim(body, "\r\n")) == 0, "S05: no more is taken than announced")
	Check(len(body) >= n || src.Len() == 0, "S05: what is announced is taken")
}
