// Package zzsip specifies the SIP package. Nothing here is executed.
package zzsip

import (
	"strings"

	"github.com/moggle-mog/goav/sips"
	. "github.com/moggle-mog/goav/zzv"
)

func method(m sips.SIPMethod, name string) {
	Check(m.String() == name, "S03: a method prints as its name")
	s := AnyString()
	Assume(strings.ToUpper(s) == name)
	x, err := sips.GetSIPMethod(s)
	Check(err == nil && x == m, "S03: a method name parses in any letter case")
}

// Methods1 and Methods2: the table of methods, read both ways.
func Methods1() {
	switch AnyInt() {
	case 1:
		method(sips.SIPMethodInvite, "INVITE")
	case 2:
		method(sips.SIPMethodAck, "ACK")
	case 3:
		method(sips.SIPMethodBye, "BYE")
	case 4:
		method(sips.SIPMethodCancel, "CANCEL")
	case 5:
		method(sips.SIPMethodOptions, "OPTIONS")
	case 6:
		method(sips.SIPMethodRegister, "REGISTER")
	case 7:
		method(sips.SIPMethodPrack, "PRACK")
	case 8:
		method(sips.SIPMethodSubscribe, "SUBSCRIBE")
	case 9:
		method(sips.SIPMethodNotify, "NOTIFY")
	case 10:
		method(sips.SIPMethodPublish, "PUBLISH")
	case 11:
		method(sips.SIPMethodInfo, "INFO")
	case 12:
		method(sips.SIPMethodRefer, "REFER")
	case 13:
		method(sips.SIPMethodMessage, "MESSAGE")
	case 14:
		method(sips.SIPMethodUpdate, "UPDATE")
	default:
		method(sips.SIPMethodPing, "PING")
	}
}

// Methods2: any text.
func Methods2() {
	s := AnyString()
	m, err := sips.GetSIPMethod(s)
	if err != nil {
		Check(m == sips.SIPMethodNil, "S03: no method without a name")
		return
	}
	Check(m.String() == strings.ToUpper(s), "S03: an accepted name is the method's text")
}

// Versions: the same for versions.
func Versions() {
	s := AnyString()
	v, err := sips.GetSIPVersion(s)
	u := strings.ToUpper(s)
	if u == "SIP/1.0" {
		Check(err == nil && v == sips.SIPVersion1, "S03: version 1.0 is accepted")
		Check(v.String() == "SIP/1.0", "S03: version 1.0 prints as itself")
	} else if u == "SIP/2.0" {
		Check(err == nil && v == sips.SIPVersion2, "S03: version 2.0 is accepted")
		Check(v.String() == "SIP/2.0", "S03: version 2.0 prints as itself")
	} else {
		Check(err != nil && v == 0, "S03: other versions are refused")
	}
}

func status(c sips.SIPStatus, code, text string) {
	Check(c.Text() == text, "S10: a status has its standard reason text")
	Check(c.String() == code, "S10: a status prints as its number")
}

// Statuses: the table of the registered reason phrases, by number.
func Statuses() {
	status(100, "100", "Trying")
	status(180, "180", "Ringing")
	status(181, "181", "Call Is Being Forwarded")
	status(182, "182", "Queued")
	status(183, "183", "Session Progress")
	status(200, "200", "OK")
	status(300, "300", "Multiple Choices")
	status(301, "301", "Moved Permanently")
	status(302, "302", "Moved Temporarily")
	status(305, "305", "Use Proxy")
	status(380, "380", "Alternative Service")
	status(400, "400", "Bad Request")
	status(401, "401", "Unauthorized")
	status(402, "402", "Payment Required")
	status(403, "403", "Forbidden")
	status(404, "404", "Not Found")
	status(405, "405", "Method Not Allowed")
	status(406, "406", "Not Acceptable")
	status(407, "407", "Proxy Authentication Required")
	status(408, "408", "Request Timeout")
	status(410, "410", "Gone")
	status(413, "413", "Request Entity Too Large")
	status(414, "414", "Request-URI Too Long")
	status(415, "415", "Unsupported Media Type")
	status(416, "416", "Unsupported URI Scheme")
	status(420, "420", "Bad Extension")
	status(421, "421", "Extension Required")
	status(423, "423", "Interval Too Brief")
	status(480, "480", "Temporarily Unavailable")
	status(481, "481", "Call/Transaction Does Not Exist")
	status(482, "482", "Loop Detected")
	status(483, "483", "Too Many Hops")
	status(484, "484", "Address Incomplete")
	status(485, "485", "Ambiguous")
	status(486, "486", "Busy Here")
	status(487, "487", "Request Terminated")
	status(488, "488", "Not Acceptable Here")
	status(491, "491", "Request Pending")
	status(493, "493", "Undecipherable")
	status(500, "500", "Server Internal Error")
	status(501, "501", "Not Implemented")
	status(502, "502", "Bad Gateway")
	status(503, "503", "Service Unavailable")
	status(504, "504", "Server Time-out")
	status(505, "505", "Version Not Supported")
	status(513, "513", "Message Too Large")
	status(600, "600", "Busy Everywhere")
	status(603, "603", "Decline")
	status(604, "604", "Does Not Exist Anywhere")
	status(606, "606", "Not Acceptable")
}

func named(c sips.SIPStatus, n int) {
	Check(int(c) == n && c.Int() == n, "S10: a named status has its number")
}

// Named: the names the package gives to the codes.
func Named() {
	named(sips.StatusTrying, 100)
	named(sips.StatusRinging, 180)
	named(sips.StatusCallIsBeingForwarded, 181)
	named(sips.StatusQueued, 182)
	named(sips.StatusSessionProgress, 183)
	named(sips.StatusOK, 200)
	named(sips.StatusMultipleChoices, 300)
	named(sips.StatusMovedPermanently, 301)
	named(sips.StatusMovedTemporarily, 302)
	named(sips.StatusUseProxy, 305)
	named(sips.StatusAlternativeService, 380)
	named(sips.StatusBadRequest, 400)
	named(sips.StatusUnauthorized, 401)
	named(sips.StatusPaymentRequired, 402)
	named(sips.StatusForbidden, 403)
	named(sips.StatusNotFound, 404)
	named(sips.StatusMethodNotAllowed, 405)
	named(sips.StatusNotAcceptable, 406)
	named(sips.StatusProxyAuthenticationRequired, 407)
	named(sips.StatusRequestTimeout, 408)
	named(sips.StatusGone, 410)
	named(sips.StatusRequestEntityTooLarge, 413)
	named(sips.StatusRequestURITooLong, 414)
	named(sips.StatusUnsupportedMediaType, 415)
	named(sips.StatusUnsupportedURIScheme, 416)
	named(sips.StatusBadExtension, 420)
	named(sips.StatusExtensionRequired, 421)
	named(sips.StatusIntervalTooBrief, 423)
	named(sips.StatusNoResponse, 480)
	named(sips.StatusCallTransactionDoesNotExist, 481)
	named(sips.StatusLoopDetected, 482)
	named(sips.StatusTooManyHops, 483)
	named(sips.StatusAddressIncomplete, 484)
	named(sips.StatusAmbigious, 485)
	named(sips.StatusBusyHere, 486)
	named(sips.StatusRequestTerminated, 487)
	named(sips.StatusNotAcceptableHere, 488)
	named(sips.StatusRequestPending, 491)
	named(sips.StatusUndecipherable, 493)
	named(sips.StatusServerInternalError, 500)
	named(sips.StatusNotImplemented, 501)
	named(sips.StatusBadGateway, 502)
	named(sips.StatusServiceUnavailable, 503)
	named(sips.StatusServerTimeout, 504)
	named(sips.StatusVersionNotSupported, 505)
	named(sips.StatusMessageTooLarge, 513)
	named(sips.StatusBusyEverywhere, 600)
	named(sips.StatusDecline, 603)
	named(sips.StatusDoesNotExistAnywhere, 604)
	named(sips.StatusUnacceptable, 606)
}

