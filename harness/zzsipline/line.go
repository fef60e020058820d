// Package zzsipline specifies how the lines of a SIP message are taken apart. Nothing here is executed.
package zzsipline

import (
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

var (
	uri  string
	made *sips.SIPRequest
)

// The parser of request URIs is replaced: how it is called is recorded.
//
//contract sips.NewSIPRequest
func newRequest(s string) *sips.SIPRequest {
	uri = s
	made = &sips.SIPRequest{Src: s}
	return made
}

// used is a message object that may have been used before.
func used() *sips.SIP {
	s := sips.NewSIP()
	if AnyBool() {
		s.IsResponse = true
		s.ResponseCode = sips.SIPStatus(AnyInt())
		s.ResponseStatus = AnyString()
	} else {
		s.Method = sips.SIPMethod(AnyU16())
		s.Request = &sips.SIPRequest{}
	}
	s.Version = sips.SIPVersion(AnyByte())
	return s
}

// StartLine: any start line.
func StartLine() {
	s := used()
	line := AnyBytes()
	t := string(line)
	uri, made = "", nil
	i := strings.Index(t, " ")
	if i < 0 {
		Check(s.ParseFirstLine(line) != nil, "S09: a start line of one part is refused")
		return
	}
	a, t := t[:i], t[i+1:]
	i = strings.Index(t, " ")
	if i < 0 {
		Check(s.ParseFirstLine(line) != nil, "S09: a start line of two parts is refused")
		return
	}
	b, c := t[:i], t[i+1:]
	response := strings.HasPrefix(a, "SIP")
	err := s.ParseFirstLine(line)
	if response {
		v, e := sips.GetSIPVersion(a)
		if e != nil {
			Check(err != nil, "S09: an unknown version is refused")
			return
		}
		n, e := strconv.Atoi(b)
		if e != nil {
			Check(err != nil, "S09: a code that is no number is refused")
			return
		}
		Check(err == nil, "S09: a response is accepted")
		Check(s.IsResponse, "S09: a line that begins with SIP is a response")
		Check(s.Version == v, "S09: a response has its version")
		Check(int(s.ResponseCode) == n, "S09: a response has its code")
		Check(s.ResponseStatus == c, "S09: a response has its reason")
		return
	}
	m, e := sips.GetSIPMethod(a)
	if e != nil {
		Check(err != nil, "S09: an unknown method is refused")
		return
	}
	v, e := sips.GetSIPVersion(c)
	if e != nil {
		Check(err != nil, "S09: an unknown version is refused")
		return
	}
	Check(err == nil, "S09: a request is accepted")
	Check(!s.IsResponse, "S09: any other line is a request")
	Check(s.Method == m, "S09: a request has its method")
	Check(s.Version == v, "S09: a request has its version")
	Check(made != nil && s.Request == made && uri == b, "S09: a request has its URI")
}


// field is a header line and what it means.
func field() (line []byte, name, value string, ok bool) {
	line = AnyBytes()
	Assume(len(line) > 0 && line[0] != ' ' && line[0] != '\t')
	t := string(line)
	i := strings.Index(t, ":")
	if i < 0 {
		return line, "", "", false
	}
	return line, strings.ToLower(strings.Trim(t[:i], " ")), strings.Trim(t[i+1:], " "), true
}

// Header: any header line on a table that holds values of some header.
func Header() {
	s := sips.NewSIP()
	k, a, b := AnyString(), AnyString(), AnyString()
	n := 0
	switch AnyInt() {
	case 1:
		s.Headers[k] = []string{a}
		n = 1
	case 2:
		s.Headers[k] = []string{a, b}
		n = 2
	}
	line, name, value, ok := field()
	old := append([]byte(nil), line...)
	s.ParseHeader(line)
	Check(string(line) == string(old), "S07: parsing a line does not alter it")
	if !ok {
		check(s.Headers[k], n, a, b, "")
		Check(n > 0 || len(s.Headers) == 0, "S07: a line without a colon changes nothing")
		return
	}
	if name == k {
		if n == 0 {
			check(s.Headers[k], 1, value, "", "")
		} else if n == 1 {
			check(s.Headers[k], 2, a, value, "")
		} else {
			check(s.Headers[k], 3, a, b, value)
		}
	} else {
		check(s.Headers[k], n, a, b, "")
		check(s.Headers[name], 1, value, "", "")
	}
}

func check(v []string, n int, a, b, c string) {
	Check(len(v) == n, "S07: a header has the values of its lines")
	if len(v) != n {
		return
	}
	if n > 0 {
		Check(v[0] == a, "S07: the values of a header are in order")
	}
	if n > 1 {
		Check(v[1] == b, "S07: the values of a header are in order")
	}
	if n > 2 {
		Check(v[2] == c, "S07: the values of a header are in order")
	}
}

// more is a continuation line and what it adds.
func more() ([]byte, string) {
	line := AnyBytes()
	Assume(len(line) > 0)
	Assume(line[0] == ' ' || line[0] == '\t')
	return line, " " + strings.TrimSpace(string(line))
}

// Continued: a header line, any line without meaning, and one or two continuations.
func Continued() {
	s := sips.NewSIP()
	k, a := AnyString(), AnyString()
	n := 0
	if AnyBool() {
		s.Headers[k] = []string{a}
		n = 1
	}
	line, name, value, ok := field()
	Assume(ok)
	s.ParseHeader(line)
	if AnyBool() {
		x, _, _, ok := field()
		Assume(!ok)
		s.ParseHeader(x)
	}
	line, t := more()
	s.ParseHeader(line)
	value += t
	if AnyBool() {
		line, t := more()
		s.ParseHeader(line)
		value += t
	}
	if name == k && n == 1 {
		check(s.Headers[k], 2, a, value, "")
		return
	}
	check(s.Headers[name], 1, value, "", "")
	if name != k {
		check(s.Headers[k], n, a, "", "")
	}
}

// Orphan: a continuation with no preceding header.
func Orphan() {
	s := sips.NewSIP()
	k, a := AnyString(), AnyString()
	Assume(k != "")
	s.Headers[k] = []string{a}
	line, _ := more()
	s.ParseHeader(line)
	check(s.Headers[k], 1, a, "", "")
	Check(len(s.Headers) == 1, "S07: a continuation with no preceding header changes nothing")
}

// Empty: an empty line.
func Empty() {
	s := sips.NewSIP()
	k, a := AnyString(), AnyString()
	s.Headers[k] = []string{a}
	s.ParseHeader(nil)
	check(s.Headers[k], 1, a, "", "")
	Check(len(s.Headers) == 1, "S07: an empty line changes nothing")
}
