package zzsip

import (
	"strings"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

// anyHeader is a header table of any content.
func anyHeader() sips.SIPHeader {
	h, ok := AnyValue().(sips.SIPHeader)
	Assume(ok && h != nil)
	return h
}

// first is what a lookup must yield.
func values(h sips.SIPHeader, long, short string) []string {
	if v := h[long]; len(v) > 0 {
		return v
	}
	if short != "" {
		if v := h[short]; len(v) > 0 {
			return v
		}
	}
	return nil
}

func equal(a, b []string, what string) {
	if len(a) != len(b) {
		Check(false, "S04: every value is found, and no other")
		return
	}
	i := AnyLen()
	if i < len(a) {
		Check(a[i] == b[i], "S04: values are found in order")
	}
}

func lookup(long, short string) {
	h := anyHeader()
	q := AnyString()
	Assume(strings.ToLower(q) == long)
	want := values(h, long, short)
	if AnyBool() {
		got := h.GetFirstHeader(q)
		if len(want) > 0 {
			Check(got == want[0], "S04: the first value is found")
		} else {
			Check(got == "", "S04: no value, no text")
		}
	} else {
		equal(h.GetHeader(q), want, long)
	}
}

// Lookup1 to Lookup4: the names that have a compact form.
func Lookup1() {
	switch AnyInt() {
	case 1:
		lookup("accept-contact", "a")
	case 2:
		lookup("allow-events", "u")
	case 3:
		lookup("call-id", "i")
	case 4:
		lookup("contact", "m")
	default:
		lookup("content-encoding", "e")
	}
}

func Lookup2() {
	switch AnyInt() {
	case 1:
		lookup("content-length", "l")
	case 2:
		lookup("content-type", "c")
	case 3:
		lookup("event", "o")
	case 4:
		lookup("from", "f")
	default:
		lookup("identity", "y")
	}
}

func Lookup3() {
	switch AnyInt() {
	case 1:
		lookup("refer-to", "r")
	case 2:
		lookup("referred-by", "b")
	case 3:
		lookup("reject-contact", "j")
	case 4:
		lookup("request-disposition", "d")
	default:
		lookup("session-expires", "x")
	}
}

func Lookup4() {
	switch AnyInt() {
	case 1:
		lookup("subject", "s")
	case 2:
		lookup("supported", "k")
	case 3:
		lookup("to", "t")
	default:
		lookup("via", "v")
	}
}

func compact(s string) bool {
	switch s {
	case "accept-contact", "allow-events", "call-id", "contact", "content-encoding", "content-length", "content-type", "event", "from", "identity", "refer-to", "referred-by", "reject-contact", "request-disposition", "session-expires", "subject", "supported", "to", "via":
		return true
	}
	return false
}

// LookupOther: any other name.
func LookupOther() {
	h := anyHeader()
	q := AnyString()
	long := strings.ToLower(q)
	Assume(!compact(long))
	want := values(h, long, "")
	if AnyBool() {
		got := h.GetFirstHeader(q)
		if len(want) > 0 {
			Check(got == want[0], "S04: the first value is found")
		} else {
			Check(got == "", "S04: no value, no text")
		}
	} else {
		equal(h.GetHeader(q), want, long)
	}
}

// Set: one value under the lower-case name, others as before.
func Set() {
	h := anyHeader()
	q, v, k := AnyString(), AnyString(), AnyString()
	low := strings.ToLower(q)
	Assume(k != low)
	old := h[k]
	_, was := h[k]
	h.SetFirstHeader(q, v)
	now, is := h[k]
	Check(was == is, "S04: setting a header keeps the others")
	equal(now, old, k)
	w := h[low]
	Check(len(w) == 1 && w[0] == v, "S04: setting a header stores exactly one value under the lower-case name")
}

// Copy: the named headers of another table.
func Copy() {
	h, src := anyHeader(), sips.NewSIPHeader()
	a, b := AnyString(), AnyString()
	want := ""
	switch AnyInt() {
	case 1:
		src["call-id"] = []string{a, b}
		want = a
	case 2:
		src["i"] = []string{b}
		want = b
	case 3:
		src["call-id"], src["i"] = []string{}, []string{a, b}
		want = a
	case 4:
		src["subject"], src["call-id"] = []string{a}, []string{b}
		want = b
	}
	k := AnyString()
	old := h[k]
	Assume(k != "call-id" && k != "subject")
	if AnyBool() {
		h.CopyFrom(src, "Call-ID")
	} else {
		h.CopyFrom(src, "Subject", "Call-ID")
		set(h, "subject", src.GetFirstHeader("subject"))
	}
	set(h, "call-id", want)
	equal(h[k], old, k)
}

func set(h sips.SIPHeader, k, v string) {
	w := h[k]
	Check(len(w) == 1 && w[0] == v, "S04: a setter stores one value under the name of its header")
}

// Setters and getters for particular headers.
func Setters() {
	h := anyHeader()
	v := AnyString()
	switch AnyInt() {
	case 1:
		h.SetCallID(v)
		set(h, "call-id", v)
		Check(h.GetCallID() == v, "S04: the call identifier set is got")
	case 2:
		h.SetReasonPhrase(v)
		set(h, "reason-phrase", v)
	case 3:
		h.SetSupported(v)
		set(h, "supported", v)
	case 4:
		h.SetSubject(v)
		set(h, "subject", v)
	case 5:
		h.SetContentType(v)
		set(h, "content-type", v)
	case 6:
		h.SetAllow(v)
		set(h, "allow", v)
	case 7:
		h.SetContentLength(70)
		set(h, "content-length", "70")
		n, err := h.GetContentLength()
		Check(err == nil && n == 70, "S04: the content length set is got")
	case 8:
		h.SetMaxForwards(70)
		set(h, "max-forwards", "70")
	case 9:
		h.SetFirstHeader("Expires", v)
		Check(h.GetExpires() == v, "S04: the expiry set is got")
	default:
		c := &sips.SIPCseq{ID: v, Method: "ACK"}
		h.SetSIPCseq(c)
		set(h, "cseq", v+" ACK")
	}
}
