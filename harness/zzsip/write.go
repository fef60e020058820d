package zzsip

import (
	"strconv"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

// args0 to args2 are argument lists together with the texts they may be written as.
func args0() (sips.Args, string, string) {
	if AnyBool() {
		return nil, "", ""
	}
	return sips.NewArgs(), "", ""
}

func pair(k, v string) string {
	if v == "" {
		return ";" + k
	}
	return ";" + k + "=" + v
}

func args1() (sips.Args, string, string) {
	k, v := AnyString(), AnyString()
	a := sips.NewArgs()
	a.Set(k, v)
	return a, pair(k, v), pair(k, v)
}

func args2() (sips.Args, string, string) {
	k, v, l, w := AnyString(), AnyString(), AnyString(), AnyString()
	Assume(k != l)
	a := sips.NewArgs()
	a.Set(k, v)
	a.Set(l, w)
	return a, pair(k, v) + pair(l, w), pair(l, w) + pair(k, v)
}

func port(s string) string {
	if s == "" {
		return ""
	}
	return ":" + s
}


func request(a sips.Args, one, two string) {
	typ, user, host, p := AnyString(), AnyString(), AnyString(), AnyString()
	r := &sips.SIPRequest{URIType: typ, User: user, Host: host, Port: p, Args: a, Src: AnyString()}
	base := typ + ":" + user + "@" + host + port(p)
	out := r.String()
	Check(out == base+one || out == base+two, "S08: a request URI is written as its components")
	Check(r.URIType == typ && r.User == user && r.Host == host && r.Port == p, "S08: writing keeps a request URI")
	if AnyBool() {
		u := r.ToUser()
		Check(u.URIType == typ && u.User == user && u.Host == host && u.Port == p && u.Name == "", "S08: an address made of a request URI has its components")
		Check(len(u.Args) == len(a), "S08: an address made of a request URI has its arguments")
	}
}

func name(s string) string {
	if s == "" {
		return ""
	}
	if s == "Anonymous" {
		return "Anonymous "
	}
	return strconv.Quote(s) + " "
}

func user(a sips.Args, one, two string) {
	typ, n, u, host, p := AnyString(), AnyString(), AnyString(), AnyString(), AnyString()
	r := &sips.SIPUser{URIType: typ, Name: n, User: u, Host: host, Port: p, Args: a, Src: AnyString()}
	base := name(n) + "<" + typ + ":" + u + "@" + host + port(p) + ">"
	out := r.String()
	Check(out == base+one || out == base+two, "S08: an address is written as its components")
	Check(r.URIType == typ && r.Name == n && r.User == u && r.Host == host && r.Port == p, "S08: writing keeps an address")
	if AnyBool() {
		q := r.ToRequest()
		Check(q.URIType == typ && q.User == u && q.Host == host && q.Port == p, "S08: a request URI made of an address has its components")
		Check(len(q.Args) == len(a), "S08: a request URI made of an address has its arguments")
	}
}

func via(a sips.Args, one, two string) {
	trans, host, p := AnyString(), AnyString(), AnyString()
	r := &sips.SIPVia{Trans: trans, Host: host, Port: p, Args: a, Src: AnyString()}
	base := "SIP/2.0/" + trans + " " + host + port(p)
	out := r.String()
	Check(out == base+one || out == base+two, "S08: a Via is written as its components")
	Check(r.Trans == trans && r.Host == host && r.Port == p, "S08: writing keeps a Via")
}

// Request0 and the like: components of any content, with no, one or two arguments.
func Request0() { request(args0()) }
func Request1() { request(args1()) }
func Request2() { request(args2()) }
func User0()    { user(args0()) }
func User1()    { user(args1()) }
func User2()    { user(args2()) }
func Via0()     { via(args0()) }
func Via1()     { via(args1()) }
func Via2()     { via(args2()) }

// CseqText: a sequence number and method of any content.
func CseqText() {
	id, m := AnyString(), AnyString()
	c := &sips.SIPCseq{ID: id, Method: m, Src: AnyString()}
	Check(c.String() == id+" "+m, "S08: a CSeq is written as its components")
	Check(c.ID == id && c.Method == m, "S08: writing keeps a CSeq")
}

// Lists0 to Lists2: the other forms of an argument list.
func Lists0() {
	a, _, _ := args0()
	Check(a.CommaString() == "" && a.CRLFString() == "" && a.SemicolonString() == "", "S08: no arguments, no text")
}

func Lists1() {
	k, v := AnyString(), AnyString()
	a := sips.NewArgs()
	a.Set(k, v)
	Check(a.Get(k) == v, "S08: an argument set is got")
	Check(a.CommaString() == k+"="+strconv.Quote(v), "S08: a comma list of one")
	Check(a.CRLFString() == k+"="+v+"\r\n", "S08: a line list of one")
}

func Lists2() {
	k, v, l, w := AnyString(), AnyString(), AnyString(), AnyString()
	Assume(k != l)
	a := sips.NewArgs()
	a.Set(k, v)
	a.Set(l, w)
	Check(a.Get(k) == v && a.Get(l) == w, "S08: arguments set are got")
	s := a.CommaString()
	x, y := k+"="+strconv.Quote(v), l+"="+strconv.Quote(w)
	Check(s == x+", "+y || s == y+", "+x, "S08: a comma list of two")
	s = a.CRLFString()
	x, y = k+"="+v+"\r\n", l+"="+w+"\r\n"
	Check(s == x+y || s == y+x, "S08: a line list of two")
	a.Del(k)
	Check(a.Get(k) == "" && a.Get(l) == w, "S08: a deleted argument is gone, others stay")
}
