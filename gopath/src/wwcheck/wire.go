package wwcheck

import (
	"encoding/binary"
	"time"
)

// An independent implementation of the webwire binary protocol

const (
	tReplyError    = 0
	tReplyShutdown = 1
	tReplyInternal = 2
	tReplyNotFound = 3
	tReplyMaxConns = 4
	tReplyDisabled = 5
	tSessCreated   = 21
	tSessClosed    = 22
	tAcceptConf    = 23
	tCloseSession  = 31
	tRestore       = 32
	tHeartbeat     = 33
	tSignal        = 63 // + encoding
	tRequest       = 127
	tReply         = 191
)

// encodings
const (
	encBinary = 0
	encUtf8   = 1
	encUtf16  = 2
)

// frame is a decoded message
type frame struct {
	Type    byte
	ID      [8]byte
	Name    []byte
	Payload []byte
	Enc     int

	// Configuration
	Major, Minor byte
	Timeout      time.Duration
	BufSize      uint32
	SubProto     []byte
}

func (f frame) hasID() bool {
	switch f.Type {
	case tReplyError, tReplyShutdown, tReplyInternal, tReplyNotFound, tReplyMaxConns, tReplyDisabled,
		tCloseSession, tRestore, tRequest, tRequest + 1, tRequest + 2, tReply, tReply + 1, tReply + 2:
		return true
	}
	return false
}

func isSignal(t byte) bool  { return t >= tSignal && t <= tSignal+2 }
func isRequest(t byte) bool { return t >= tRequest && t <= tRequest+2 }
func isReply(t byte) bool   { return t >= tReply && t <= tReply+2 }
func isSpecial(t byte) bool { return t >= tReplyShutdown && t <= tReplyDisabled }

// encode returns the wire representation of the frame
func (f frame) encode() []byte {
	b := []byte{f.Type}
	id := func() { b = append(b, f.ID[:]...) }
	name := func() {
		b = append(b, byte(len(f.Name)))
		b = append(b, f.Name...)
	}
	switch {
	case isSignal(f.Type), isRequest(f.Type):
		if isRequest(f.Type) {
			id()
		}
		name()
		if f.Enc == encUtf16 && len(f.Name)%2 == 1 {
			b = append(b, 0)
		}
		b = append(b, f.Payload...)
	case isReply(f.Type):
		id()
		if f.Enc == encUtf16 {
			b = append(b, 0)
		}
		b = append(b, f.Payload...)
	case isSpecial(f.Type), f.Type == tCloseSession:
		id()
	case f.Type == tRestore:
		id()
		b = append(b, f.Payload...)
	case f.Type == tReplyError:
		id()
		name()
		b = append(b, f.Payload...)
	case f.Type == tSessCreated:
		b = append(b, f.Payload...)
	case f.Type == tSessClosed, f.Type == tHeartbeat:
	case f.Type == tAcceptConf:
		b = append(b, f.Major, f.Minor)
		b = binary.LittleEndian.AppendUint32(b, uint32(f.Timeout/time.Millisecond))
		b = binary.LittleEndian.AppendUint32(b, f.BufSize)
		b = append(b, f.SubProto...)
	default:
		panic("unknown type")
	}
	return b
}

type validity int

const (
	valid validity = iota
	invalid
	unspecified // the protocol leaves open whether it's accepted
)

// decode is the reference parser
func decode(b []byte) (f frame, v validity) {
	if len(b) < 1 {
		return f, invalid
	}
	f.Type = b[0]
	v = valid
	need := func(n int) bool {
		if len(b) < n {
			v = invalid
			return false
		}
		return true
	}
	id := func() { copy(f.ID[:], b[1:9]) }
	t := f.Type
	switch {
	case isSignal(t), isRequest(t):
		nl := 1
		f.Enc = int(t) - tSignal
		if isRequest(t) {
			nl = 9
			f.Enc = int(t) - tRequest
		}
		if !need(nl + 1) {
			return
		}
		if isRequest(t) {
			id()
		}
		n := int(b[nl])
		off := nl + 1 + n
		if f.Enc == encUtf16 && n%2 == 1 {
			off++
		}
		if !need(off) {
			return
		}
		f.Name = b[nl+1 : nl+1+n]
		f.Payload = b[off:]
		if n == 0 && len(f.Payload) == 0 {
			v = invalid
		}
		if f.Enc == encUtf16 && len(f.Payload)%2 == 1 {
			v = invalid
		}
	case isReply(t):
		f.Enc = int(t) - tReply
		off := 9
		if f.Enc == encUtf16 {
			off = 10
		}
		if !need(off) {
			return
		}
		id()
		f.Payload = b[off:]
		if f.Enc == encUtf16 && len(f.Payload)%2 == 1 {
			v = invalid
		}
	case isSpecial(t):
		if !need(9) {
			return
		}
		id()
		if len(b) > 9 {
			v = unspecified
		}
	case t == tCloseSession:
		if !need(9) {
			return
		}
		id()
		if len(b) > 9 {
			v = invalid
		}
	case t == tRestore:
		if !need(10) {
			return
		}
		id()
		f.Payload = b[9:]
	case t == tReplyError:
		if !need(11) {
			return
		}
		id()
		n := int(b[9])
		if n < 1 {
			v = invalid
			return
		}
		if !need(10 + n) {
			return
		}
		f.Name = b[10 : 10+n]
		f.Payload = b[10+n:]
	case t == tSessCreated:
		if !need(2) {
			return
		}
		f.Payload = b[1:]
	case t == tSessClosed, t == tHeartbeat:
		if len(b) != 1 {
			v = invalid
		}
	case t == tAcceptConf:
		if !need(11) {
			return
		}
		f.Major, f.Minor = b[1], b[2]
		f.Timeout = time.Duration(binary.LittleEndian.Uint32(b[3:])) * time.Millisecond
		f.BufSize = binary.LittleEndian.Uint32(b[7:])
		f.SubProto = b[11:]
	default:
		v = invalid
	}
	return
}

func idOf(n uint64) (id [8]byte) {
	binary.LittleEndian.PutUint64(id[:], n*0x9E3779B97F4A7C15) // odd, hence unique
	return
}
