package zzsip

import (
	"strconv"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

// sent checks the text of a message against its start line, the texts its other headers may have, and its body.
func sent(s *sips.SIP, line, one, two string, body []byte) {
	end := ""
	if len(body) > 0 {
		end = "\r\n" + string(body)
	}
	cl := "content-length: " + strconv.Itoa(len(body)) + "\r\n"
	out := s.String()
	if one == "" {
		Check(out == line+"\r\n"+cl+end, "S06: a message is its start line, headers and body")
	} else {
		Check(out == line+"\r\n"+cl+one+end || out == line+"\r\n"+one+cl+end, "S06: a message is its start line, headers and body")
	}
	Check(string(s.Payload()) == string(body), "S06: the body is kept")
}

func table(kind int) (sips.SIPHeader, string, string) {
	h := sips.NewSIPHeader()
	one := ""
	switch kind {
	case 0:
		h["content-length"] = []string{AnyString()}
	case 1:
		k, v := AnyString(), AnyString()
		Assume(k != "content-length" && k != "Content-Length")
		h[k] = []string{v}
		one = k + ": " + v + "\r\n"
	case 2:
		k, v := AnyString(), AnyString()
		Assume(k != "content-length" && k != "Content-Length")
		h[k] = []string{v}
		h["content-length"] = []string{AnyString(), AnyString()}
		one = k + ": " + v + "\r\n"
	}
	return h, one, one
}

func anyURI() (*sips.SIPRequest, string) {
	typ, user, host, p := AnyString(), AnyString(), AnyString(), AnyString()
	return &sips.SIPRequest{URIType: typ, User: user, Host: host, Port: p, Src: AnyString()}, typ + ":" + user + "@" + host + port(p)
}

func sendRequest(kind int) {
	m, v := sips.SIPMethodInvite, sips.SIPVersion1
	if kind == 0 {
		m, v = sips.SIPMethod(AnyU16()), sips.SIPVersion(AnyByte())
	}
	r, uri := anyURI()
	h, one, two := table(kind)
	body := AnyBytes()
	line := m.String() + " " + uri + " "
	if AnyBool() {
		s := sips.MakeRequest(m, r, h, body)
		sent(s, line+"SIP/2.0", one, two, body)
	} else {
		s := sips.NewSIP()
		s.ResponseCode, s.ResponseStatus, s.Contents = sips.SIPStatus(AnyInt()), AnyString(), AnyBytes()
		s.Method, s.Request, s.Version = m, r, v
		s.SetHeader(h)
		s.SetBody(body)
		sent(s, line+v.String(), one, two, body)
	}
}

func sendResponse(kind int) {
	c, v := sips.StatusOK, sips.SIPVersion1
	if kind == 0 {
		c = sips.SIPStatus(AnyInt())
		Assume(c != 406 && c != 606) // these share their text
	} else if kind == 1 {
		v = sips.SIPVersion(AnyByte())
	} else if kind == 2 {
		c = 406
	} else {
		c = 606
	}
	h, one, two := table(kind)
	body := AnyBytes()
	text := c.Text()
	line := " " + strconv.Itoa(int(c)) + " " + text
	if AnyBool() {
		s := sips.MakeResponse(c, h, body)
		sent(s, "SIP/2.0"+line, one, two, body)
	} else {
		s := sips.NewSIP()
		s.IsResponse = true
		s.Method, s.Request, s.Contents = sips.SIPMethod(AnyU16()), &sips.SIPRequest{User: AnyString()}, AnyBytes()
		s.ResponseStatus = AnyString()
		s.ResponseCode, s.Version = c, v
		s.SetHeader(h)
		s.SetBody(body)
		sent(s, v.String()+line, one, two, body)
	}
}

// SendRequest0 and the like: messages of any content, with no header, a stale Content-Length, another header,
// or both.
func SendRequest0()  { sendRequest(0) }
func SendRequest1()  { sendRequest(1) }
func SendRequest2()  { sendRequest(2) }
func SendRequest3()  { sendRequest(3) }
func SendResponse0() { sendResponse(0) }
func SendResponse1() { sendResponse(1) }
func SendResponse2() { sendResponse(2) }
func SendResponse3() { sendResponse(3) }
