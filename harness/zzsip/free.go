package zzsip

import (

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

// Request: any request URI.
func Request() {
	Coarse()
	sips.NewSIPRequest(AnyString())
}

// User: any address.
func User() {
	Coarse()
	sips.NewSIPUser(AnyString())
}

// Via: any Via value.
func Via() {
	Coarse()
	sips.NewSIPVia(AnyString())
}

// Cseq: any CSeq value.
func Cseq() {
	Coarse()
	sips.NewSIPCseq(AnyString())
}

// Auth: any Authorization value.
func Auth() {
	Coarse()
	sips.NewSIPAuth(AnyString())
}

// Args: any argument list.
func Args() {
	Coarse()
	sips.ParseArgs(AnyString())
	sips.ParseArgsPairs(AnyString())
	sips.NewArgs().ParseList(AnyString())
}

// Lines: any header lines, in any order.
func Lines() {
	Coarse()
	s := sips.NewSIP()
	for AnyBool() {
		s.ParseHeader(AnyBytes())
	}
}

// FirstLine: any start line.
func FirstLine() {
	Coarse()
	sips.NewSIP().ParseFirstLine(AnyBytes())
}
