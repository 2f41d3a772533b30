package wwcheck

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	pld "github.com/qbeon/webwire-go/payload"
	"pgregory.net/rapid"
)

// msgSpec describes a message to be written
type msgSpec struct {
	Kind    string
	ID      [8]byte
	Name    []byte `json:",omitempty"`
	Payload Blob
	Enc     int    `json:",omitempty"`
	Safe    bool   `json:",omitempty"`
	Special byte   `json:",omitempty"`
	Timeout uint32 `json:",omitempty"`
	BufSize uint32 `json:",omitempty"`
	Major   byte   `json:",omitempty"`
	Minor   byte   `json:",omitempty"`
}

var msgKinds = []string{"request", "signal", "reply", "error", "special", "restore", "closesession",
	"created", "sessclosed", "heartbeat", "conf"}

func genMsg(t *rapid.T, maxPayload int) msgSpec {
	m := msgSpec{Kind: rapid.SampledFrom(msgKinds).Draw(t, "kind")}
	m.ID = genID(t)
	m.Safe = rapid.Bool().Draw(t, "safe")
	switch m.Kind {
	case "request", "signal":
		m.Enc = genEnc(t)
		m.Name = genName(t, 0, 255, "name")
		if !m.Safe && len(m.Name) > 0 && rapid.Bool().Draw(t, "rawName") {
			m.Name[rapid.IntRange(0, len(m.Name)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "char")
		}
		m.Payload = evenIf(m.Enc == encUtf16, genBlob(t, 0, maxPayload, "payload"))
		if len(m.Name) < 1 && m.Payload.len() < 1 {
			m.Payload = Blob{B: []byte{1, 2}}
		}
	case "reply":
		m.Enc = genEnc(t)
		m.Payload = evenIf(m.Enc == encUtf16, genBlob(t, 0, maxPayload, "payload"))
	case "error":
		m.Name = genName(t, 1, 255, "code")
		m.Payload = genBlob(t, 0, maxPayload, "message")
	case "special":
		m.Special = rapid.ByteRange(tReplyShutdown, tReplyDisabled).Draw(t, "special")
	case "restore":
		m.Payload = genBlob(t, 1, maxPayload, "key")
	case "created":
		m.Payload = genBlob(t, 1, maxPayload, "info")
	case "conf":
		m.Major, m.Minor = rapid.Byte().Draw(t, "major"), rapid.Byte().Draw(t, "minor")
		m.Timeout = rapid.Uint32().Draw(t, "timeout")
		m.BufSize = rapid.Uint32().Draw(t, "bufSize")
		m.Name = genBlob(t, 0, rapid.SampledFrom([]int{300, 300, 300, 3000, 70000}).Draw(t, "maxSubProto"), "subProto").bytes()
		if len(m.Name) > maxPayload {
			m.Name = m.Name[:maxPayload]
		}
	}
	return m
}

// expect returns the frame the message must be encoded to
func (m msgSpec) expect() frame {
	f := frame{ID: m.ID, Name: m.Name, Payload: m.Payload.bytes(), Enc: m.Enc}
	switch m.Kind {
	case "request":
		f.Type = byte(tRequest + m.Enc)
	case "signal":
		f.Type = byte(tSignal + m.Enc)
		f.ID = [8]byte{}
	case "reply":
		f.Type = byte(tReply + m.Enc)
	case "error":
		f.Type = tReplyError
	case "special":
		f.Type = m.Special
	case "restore":
		f.Type = tRestore
	case "closesession":
		f.Type = tCloseSession
	case "created":
		f.Type, f.ID = tSessCreated, [8]byte{}
	case "sessclosed":
		f.Type, f.ID = tSessClosed, [8]byte{}
	case "heartbeat":
		f.Type, f.ID = tHeartbeat, [8]byte{}
	case "conf":
		f = frame{Type: tAcceptConf, Major: m.Major, Minor: m.Minor, BufSize: m.BufSize,
			Timeout: time.Duration(m.Timeout) * time.Millisecond, SubProto: m.Name}
	}
	return f
}

// write writes the message using the library
func (m msgSpec) write(w io.WriteCloser) error { return m.writeData(w, m.Payload.bytes()) }

func (m msgSpec) writeData(w io.WriteCloser, p []byte) error {
	switch m.Kind {
	case "request":
		return message.WriteMsgRequest(w, m.ID[:], m.Name, pld.Encoding(m.Enc), p, m.Safe)
	case "signal":
		return message.WriteMsgSignal(w, m.Name, pld.Encoding(m.Enc), p, m.Safe)
	case "reply":
		return message.WriteMsgReply(w, m.ID[:], pld.Encoding(m.Enc), p)
	case "error":
		return message.WriteMsgReplyError(w, m.ID[:], m.Name, p, m.Safe)
	case "special":
		return message.WriteMsgSpecialRequestReply(w, m.Special, m.ID[:])
	case "restore":
		return message.WriteMsgNamelessRequest(w, message.MsgRequestRestoreSession, m.ID[:], p)
	case "closesession":
		return message.WriteMsgNamelessRequest(w, message.MsgRequestCloseSession, m.ID[:], nil)
	case "created":
		return message.WriteMsgNotifySessionCreated(w, p)
	case "sessclosed":
		return message.WriteMsgNotifySessionClosed(w)
	case "heartbeat":
		return message.WriteMsgHeartbeat(w)
	}
	panic("unknown kind")
}

// recWriter records what's written and fails on demand
type recWriter struct {
	buf       []byte
	writes    int
	closes    int
	failWrite int // index of the write to fail, -1 for none
	failClose bool
	short     bool // the failing write writes a part
	after     int  // writes after a failure or closure
	failed    bool
}

func (w *recWriter) Write(p []byte) (int, error) {
	if w.failed || w.closes > 0 {
		w.after++
	}
	n := w.writes
	w.writes++
	if n == w.failWrite {
		w.failed = true
		if w.short && len(p) > 0 {
			w.buf = append(w.buf, p[:len(p)/2]...)
			return len(p) / 2, errFault
		}
		return 0, errFault
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

var errCloseFault = errors.New("injected closure fault")

func (w *recWriter) Close() error {
	w.closes++
	if w.failClose {
		return errCloseFault
	}
	return nil
}

// diffMsg compares a parsed message to the expectation, returns an empty string if they're equal
func diffMsg(m *message.Message, f frame) string {
	switch {
	case m.MsgType != f.Type:
		return fmt.Sprintf("type: got %d, want %d", m.MsgType, f.Type)
	case m.MsgIdentifier != f.ID:
		return fmt.Sprintf("identifier: got %x, want %x", m.MsgIdentifier, f.ID)
	case f.hasID() && !bytes.Equal(m.MsgIdentifierBytes, f.ID[:]):
		return fmt.Sprintf("identifier bytes: got %x, want %x", m.MsgIdentifierBytes, f.ID)
	case !bytes.Equal(m.MsgName, f.Name):
		return fmt.Sprintf("name: got %q, want %q", m.MsgName, f.Name)
	case !bytes.Equal(m.MsgPayload.Data, f.Payload):
		return fmt.Sprintf("payload: got %x, want %x", clip(m.MsgPayload.Data), clip(f.Payload))
	}
	if isSignal(f.Type) || isRequest(f.Type) || isReply(f.Type) {
		if int(m.MsgPayload.Encoding) != f.Enc {
			return fmt.Sprintf("encoding: got %d, want %d", m.MsgPayload.Encoding, f.Enc)
		}
		if m.PayloadEncoding() != m.MsgPayload.Encoding || !bytes.Equal(m.Payload(), f.Payload) ||
			!bytes.Equal(m.Name(), f.Name) || m.Identifier() != f.ID {
			return "the getters don't return the message"
		}
	}
	c := m.ServerConfiguration
	if c.MajorProtocolVersion != f.Major || c.MinorProtocolVersion != f.Minor || c.ReadTimeout != f.Timeout ||
		c.MessageBufferSize != f.BufSize || !bytes.Equal(c.SubProtocolName, f.SubProto) {
		return fmt.Sprintf("server configuration: got %+v, want %+v", c, f)
	}
	want := f.Type == tCloseSession || f.Type == tRestore || isRequest(f.Type)
	if m.RequiresReply() != want {
		return fmt.Sprintf("RequiresReply: got %t", m.RequiresReply())
	}
	return ""
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// C01

type c01Case struct {
	Msg   msgSpec
	Extra int // additional space in the buffer of the receiver
	Read  bool
}

func init() {
	register("C01", "random legal messages of all 11 kinds (names of 0-255 bytes, payloads up to 70 kB, all encodings,"+
		" boundary lengths favoured), written, compared to an independent encoder byte by byte, parsed again;"+
		" non-trivial: the message carries a name, payload or configuration",
		180000, 5400000,
		func(t *rapid.T) c01Case {
			max := 2000
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				max = 70000
			}
			return c01Case{genMsg(t, max), rapid.IntRange(0, 40).Draw(t, "extra"), rapid.Bool().Draw(t, "read")}
		},
		func(c *Ctx, k c01Case) {
			m := k.Msg
			f := m.expect()
			want := f.encode()
			c.Nontrivial(len(f.Name) > 0 || len(f.Payload) > 0 || m.Kind == "conf")
			c.Class(m.Kind, true)
			c.Class("utf16-odd-name", m.Enc == encUtf16 && len(m.Name)%2 == 1)
			c.Class("payload>64k", m.Payload.len() > 65536)
			var got []byte
			if m.Kind == "conf" {
				b, err := message.NewAcceptConfMessage(message.ServerConfiguration{
					MajorProtocolVersion: m.Major, MinorProtocolVersion: m.Minor,
					ReadTimeout: f.Timeout, MessageBufferSize: m.BufSize, SubProtocolName: m.Name,
				})
				if err != nil {
					c.Failf("legal configuration refused: %s", err)
				}
				got = b
			} else {
				w := &recWriter{failWrite: -1}
				ro := romLoad(m.Name, m.Payload.bytes())
				m.Name = ro[0]
				romGuard(c, "writing a message", func() {
					if err := m.writeData(w, ro[1]); err != nil {
						c.Failf("writing a legal message failed: %s", err)
					}
				})
				if w.closes != 1 || w.after > 0 {
					c.Failf("writer: closed %d times, %d writes after closure", w.closes, w.after)
				}
				got = w.buf
			}
			if !bytes.Equal(got, want) {
				c.Failf("%s encoded to %d bytes %x, want %d bytes %x", m.Kind, len(got), clip(got), len(want), clip(want))
			}
			predicted := len(want)
			switch m.Kind {
			case "request":
				predicted = message.CalcMsgLenRequest(m.Name, pld.Encoding(m.Enc), m.Payload.bytes())
			case "signal":
				predicted = message.CalcMsgLenSignal(m.Name, pld.Encoding(m.Enc), m.Payload.bytes())
			}
			if predicted != len(want) {
				c.Failf("predicted length %d, actual length %d", predicted, len(want))
			}
			rx := message.NewMessage(uint32(len(want) + k.Extra))
			var typeParsed bool
			var err error
			if k.Read {
				typeParsed, err = rx.Read(bytes.NewReader(got))
			} else {
				src := romLoad(got)[0]
				romGuard(c, "reading a message", func() { typeParsed, err = rx.ReadBytes(src) })
				romUnlock()
				// The buffer belongs to the caller
				for i := range src {
					src[i] ^= 0x55
				}
			}
			if err != nil || !typeParsed {
				c.Failf("%s isn't accepted by the parser: %v (%x)", m.Kind, err, clip(got))
			}
			if d := diffMsg(rx, f); d != "" {
				c.Failf("%s isn't restored: %s", m.Kind, d)
			}
		})
}

// C02

type mutation struct {
	Op  string
	At  int
	Val byte
}

type c02Case struct {
	Base *msgSpec   `json:",omitempty"`
	Raw  Blob       // instead of Base
	Mut  []mutation `json:",omitempty"`
	// Dirty is what the message object held before
	Dirty *msgSpec `json:",omitempty"`
	Extra int
	Read  bool
}

func (k c02Case) bytes() []byte {
	b := k.Raw.bytes()
	if k.Base != nil {
		b = k.Base.expect().encode()
	}
	for _, m := range k.Mut {
		switch m.Op {
		case "trunc":
			if len(b) > 0 {
				b = b[:m.At%(len(b)+1)]
			}
		case "trunc1":
			if len(b) > 0 {
				b = b[:len(b)-1]
			}
		case "extend":
			for i := 0; i <= m.At%4; i++ {
				b = append(b, m.Val)
			}
		case "set":
			if len(b) > 0 {
				b[m.At%len(b)] = m.Val
			}
		case "namelen":
			i := 9
			if len(b) > 0 && isSignal(b[0]) {
				i = 1
			}
			if len(b) > i {
				b[i] = m.Val
			}
		case "namelen±":
			i := 9
			if len(b) > 0 && isSignal(b[0]) {
				i = 1
			}
			if len(b) > i {
				b[i] += byte(m.At%5) - 2
			}
		case "type":
			if len(b) > 0 {
				b[0] = m.Val
			}
		}
	}
	return b
}

var allTypes = []byte{0, 1, 2, 3, 4, 5, 6, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66,
	126, 127, 128, 129, 130, 190, 191, 192, 193, 194, 255}

func genMutations(t *rapid.T, max int) []mutation {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mutation {
		m := mutation{Op: rapid.SampledFrom([]string{"trunc", "trunc1", "extend", "set", "namelen", "namelen±", "type"}).Draw(t, "op")}
		m.At = rapid.IntRange(0, 300).Draw(t, "at")
		m.Val = rapid.Byte().Draw(t, "val")
		if m.Op == "type" && rapid.Bool().Draw(t, "known") {
			m.Val = rapid.SampledFrom(allTypes).Draw(t, "type")
		}
		return m
	}), 0, max).Draw(t, "mutations")
}

func genFrameCase(t *rapid.T) (k c02Case) {
	if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
		k.Raw.B = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
		if len(k.Raw.B) > 0 {
			k.Raw.B[0] = rapid.SampledFrom(allTypes).Draw(t, "type")
		}
	} else {
		max := 400
		if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
			max = 5000
		}
		m := genMsg(t, max)
		k.Base = &m
		k.Mut = genMutations(t, 3)
	}
	return
}

func init() {
	register("C02", "frames of all types mutated by truncation, extension, type and length-byte changes, plus raw bytes,"+
		" parsed into clean and dirty buffers and compared to an independent parser; non-trivial: mutated or raw frame of a known type",
		180000, 5400000,
		func(t *rapid.T) c02Case {
			k := genFrameCase(t)
			if rapid.Bool().Draw(t, "dirty") {
				m := genMsg(t, 400)
				k.Dirty = &m
			}
			k.Extra = rapid.IntRange(0, 300).Draw(t, "extra")
			k.Read = rapid.Bool().Draw(t, "read")
			return k
		},
		func(c *Ctx, k c02Case) {
			b := k.bytes()
			f, v := decode(b)
			size := len(b) + k.Extra
			if size < 1 {
				size = 1
			}
			var dirty []byte
			if k.Dirty != nil {
				dirty = k.Dirty.expect().encode()
				if len(dirty) > size {
					size = len(dirty)
				}
			}
			rx := message.NewMessage(uint32(size))
			if dirty != nil {
				if _, err := rx.ReadBytes(dirty); err != nil {
					c.Failf("valid message refused: %s", err)
				}
				rx.Close()
			}
			known := len(b) > 0 && bytes.IndexByte([]byte{0, 1, 2, 3, 4, 5, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193}, b[0]) >= 0
			c.Nontrivial(known && (k.Base == nil || len(k.Mut) > 0))
			c.Class("valid", v == valid)
			c.Class("invalid", v == invalid)
			c.Class("unknown-type", !known)
			var typeParsed bool
			var err error
			if k.Read {
				typeParsed, err = rx.Read(bytes.NewReader(b))
			} else {
				src := append([]byte(nil), b...)
				typeParsed, err = rx.ReadBytes(src)
				// The buffer belongs to the caller
				for i := range src {
					src[i] ^= 0x55
				}
			}
			accepted := typeParsed && err == nil
			if !known && typeParsed {
				c.Failf("type of %x reported as parsed", clip(b))
			}
			if accepted && v == invalid {
				c.Failf("invalid message accepted: %d bytes %x", len(b), clip(b))
			}
			if !accepted && v == valid {
				c.Failf("valid message refused: %v (%d bytes %x)", err, len(b), clip(b))
			}
			if accepted {
				if d := diffMsg(rx, f); d != "" {
					c.Failf("%x: %s", clip(b), d)
				}
			}
		})
}

// C03

type poolOp struct {
	Full   bool   `json:",omitempty"` // the message read fills the buffer
	Append bool   `json:",omitempty"` // data is appended to the payload
	Op     string // get, read, close
	Slot   int
	F      c02Case
}

type c03Case struct {
	Size int
	Ops  []poolOp

	// Concurrent use, each worker repeatedly gets Hold messages, reads frames into them, verifies and
	// closes them
	Workers int `json:",omitempty"`
	Hold    int `json:",omitempty"`
	Rounds  int `json:",omitempty"`
	Crowd   int `json:",omitempty"` // the number of messages open at once
}

// runC03crowd uses lots of messages at once
func runC03crowd(c *Ctx, k c03Case) {
	pool := message.NewSyncPool(uint32(k.Size), 4)
	type open struct {
		m *message.Message
		f frame
	}
	var msgs []open
	n := 0
	add := func() {
		m := pool.Get()
		if !m.MsgBuffer.IsEmpty() || m.MsgType != 0 || m.MsgIdentifier != [8]byte{} || len(m.MsgName) > 0 ||
			len(m.MsgPayload.Data) > 0 {
			c.Failf("message %d: the pool handed out a message exposing a previous message", n)
		}
		f := frame{Type: tRequest, ID: idOf(uint64(n)), Name: []byte(fmt.Sprint("n", n))}
		f.Payload = bytes.Repeat([]byte{byte(n), byte(n >> 8)}, n%50)
		if ok, err := m.ReadBytes(f.encode()); !ok || err != nil {
			c.Failf("message %d: a valid message was refused: %v", n, err)
		}
		msgs = append(msgs, open{m, f})
		n++
	}
	verify := func() {
		seen := map[*message.Message]bool{}
		for i, o := range msgs {
			if d := diffMsg(o.m, o.f); d != "" || seen[o.m] {
				c.Failf("%d messages are open, message %d was handed out twice: %t, it changed: %s", len(msgs), i, seen[o.m], d)
			}
			seen[o.m] = true
		}
	}
	for _, share := range []int{1, 2, 3} {
		for len(msgs) < k.Crowd {
			add()
		}
		verify()
		// Close some of them, these are reused
		var left []open
		for i, o := range msgs {
			if i%(share+1) == 0 {
				o.m.Close()
				continue
			}
			left = append(left, o)
		}
		msgs = left
		verify()
	}
	for _, o := range msgs {
		o.m.Close()
	}
	c.Nontrivial(true)
	c.Class("a crowd of messages", true)
}

// runC03concurrent uses a pool by several goroutines at once
func runC03concurrent(c *Ctx, k c03Case) {
	pool := message.NewSyncPool(uint32(k.Size), 4)
	var frames [][]byte
	for _, o := range k.Ops {
		if b := o.F.bytes(); len(b) > 0 && len(b) <= k.Size {
			if _, v := decode(b); v == valid {
				frames = append(frames, b)
			}
		}
	}
	frames = append(frames, []byte{tHeartbeat})
	var wg sync.WaitGroup
	fails := make([]string, k.Workers)
	var failed int32
	start := make(chan struct{})
	for w := 0; w < k.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			fail := func(s string) {
				fails[w] = s
				atomic.StoreInt32(&failed, 1)
			}
			defer func() {
				if r := recover(); r != nil {
					fail(fmt.Sprintf("panic: %v", r))
				}
			}()
			// Every worker uses names and payloads of its own
			own := make([][]byte, 0, len(frames)+2)
			own = append(own, frames...)
			name := []byte{byte('a' + w)}
			for _, l := range []int{0, 40} {
				f := frame{Type: tRequest, ID: idOf(uint64(1000 + w)), Name: name, Payload: bytes.Repeat(name, l)}
				own = append(own, f.encode())
				f = frame{Type: tSignal, Name: name, Payload: bytes.Repeat(name, l+1)}
				own = append(own, f.encode())
			}
			expected := make([]frame, len(own))
			for i, b := range own {
				expected[i], _ = decode(b)
			}
			msgs := make([]*message.Message, k.Hold)
			want := make([]int, k.Hold)
			// Used for all messages
			var src []byte
			<-start
			for r := 0; r < k.Rounds && atomic.LoadInt32(&failed) == 0; r++ {
				for i := range msgs {
					m := pool.Get()
					if m == nil {
						fail("the pool returned no message")
						return
					}
					if !m.MsgBuffer.IsEmpty() || m.MsgType != 0 || m.MsgIdentifier != [8]byte{} || len(m.MsgName) > 0 ||
						len(m.MsgPayload.Data) > 0 {
						fail("the pool handed out a message exposing a previous message")
						return
					}
					want[i] = (r*k.Hold + i + w) % len(own)
					src = append(src[:0], own[want[i]]...)
					if parsed, err := m.ReadBytes(src); !parsed || err != nil {
						fail(fmt.Sprintf("a valid message was refused: %v", err))
						return
					}
					msgs[i] = m
				}
				for i, m := range msgs {
					if d := diffMsg(m, expected[want[i]]); d != "" {
						fail("the contents of an open message changed: " + d)
						return
					}
					if r%8 == 0 {
						runtime.Gosched()
					}
					if d := diffMsg(m, expected[want[i]]); d != "" {
						fail("the contents of an open message changed: " + d)
						return
					}
				}
				for _, m := range msgs {
					m.Close()
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			c.Failf("concurrent use: %s", f)
		}
	}
	c.Nontrivial(k.Workers > 1)
	c.Class("concurrent", true)
}

func init() {
	registerNoisy("C03", "histories of get/read/close operations on up to 6 slots of one message pool with valid and invalid frames;"+
		" after each operation all open messages must still show exactly their own frame; non-trivial: at least one reuse after a closure"+
		" while another message is open, or several goroutines using the pool at once",
		37500, 1125000,
		func(t *rapid.T) c03Case {
			k := c03Case{Size: rapid.IntRange(700, 1200).Draw(t, "size")}
			if rapid.IntRange(0, 79).Draw(t, "isCrowd") == 42 {
				k.Crowd = rapid.SampledFrom([]int{30, 70, 130, 257, 300, 1030}).Draw(t, "crowd")
				return k
			}
			k.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) poolOp {
				o := poolOp{Op: rapid.SampledFrom([]string{"read", "read", "read", "reread", "close", "close", "get"}).Draw(t, "op")}
				o.Slot = rapid.IntRange(0, 5).Draw(t, "slot")
				if o.Op == "read" || o.Op == "reread" {
					o.F = genFrameCase(t)
					o.Full = rapid.IntRange(0, 3).Draw(t, "full") == 0
				}
				o.Append = rapid.IntRange(0, 3).Draw(t, "append") == 0
				return o
			}), 1, 25).Draw(t, "ops")
			if rapid.IntRange(0, 79).Draw(t, "concurrent") == 42 {
				k.Workers = rapid.IntRange(2, 12).Draw(t, "workers")
				k.Hold = rapid.IntRange(1, 4).Draw(t, "hold")
				k.Rounds = rapid.SampledFrom([]int{200, 1000, 4000}).Draw(t, "rounds")
			}
			return k
		},
		func(c *Ctx, k c03Case) {
			if k.Workers > 0 {
				runC03concurrent(c, k)
				return
			}
			if k.Crowd > 0 {
				runC03crowd(c, k)
				return
			}
			pool := message.NewSyncPool(uint32(k.Size), 4)
			type slot struct {
				m    *message.Message
				f    frame
				open bool
				any  bool // the state isn't specified
			}
			slots := make([]*slot, 6)
			closedSome := false
			// The caller's buffer is used for all messages
			var src []byte
			get := func(i int) {
				m := pool.Get()
				if m == nil {
					c.Failf("the pool returned no message")
				}
				for j, s := range slots {
					if s != nil && s.m == m {
						c.Failf("the pool handed out the message of slot %d again", j)
					}
				}
				if !m.MsgBuffer.IsEmpty() || m.MsgType != 0 || m.MsgIdentifier != [8]byte{} || len(m.MsgName) > 0 ||
					len(m.MsgPayload.Data) > 0 || m.MsgPayload.Encoding != 0 ||
					!reflect.DeepEqual(m.ServerConfiguration, message.ServerConfiguration{}) {
					c.Failf("the pool handed out a message exposing a previous message")
				}
				slots[i] = &slot{m: m}
				open := 0
				for _, s := range slots {
					if s != nil && s.open {
						open++
					}
				}
				c.Nontrivial(closedSome && open > 0)
			}
			for n, o := range k.Ops {
				s := slots[o.Slot]
				switch o.Op {
				case "get":
					if s == nil {
						get(o.Slot)
					}
				case "close":
					if s != nil {
						s.m.Close()
						closedSome = closedSome || s.open
						if !s.m.MsgBuffer.IsEmpty() || len(s.m.MsgName) > 0 || len(s.m.MsgPayload.Data) > 0 ||
							!reflect.DeepEqual(s.m.ServerConfiguration, message.ServerConfiguration{}) {
							c.Failf("step %d: a closed message exposes its contents", n)
						}
						// A message that was never read isn't returned to the pool by its closure
						if s.open {
							slots[o.Slot] = nil
						}
					}
				case "read", "reread":
					if s == nil {
						get(o.Slot)
						s = slots[o.Slot]
					}
					if s.open && o.Op == "read" {
						continue
					}
					b := o.F.bytes()
					if o.Full {
						// A message that fits exactly
						f := frame{Type: tRequest, ID: idOf(uint64(n)), Name: []byte("full")}
						f.Payload = bytes.Repeat([]byte{byte(n + 1)}, k.Size-len(f.encode()))
						b = f.encode()
					}
					if len(b) > k.Size {
						b = b[:k.Size]
					}
					f, v := decode(b)
					src = append(src[:0], b...)
					typeParsed, err := s.m.ReadBytes(src)
					if len(b) < 1 {
						// Nothing was read
						continue
					}
					accepted := typeParsed && err == nil
					if accepted != (v == valid) && v != unspecified {
						c.Failf("step %d: acceptance of %x is %t", n, clip(b), accepted)
					}
					s.open, s.any = true, !accepted
					s.f = f
					if !accepted {
						// Nothing of the previous message may remain, all that's exposed must be part of
						// the current one
						m := s.m
						if m.MsgIdentifier != [8]byte{} && !bytes.Contains(b, m.MsgIdentifier[:]) ||
							!bytes.Contains(b, m.MsgName) || !bytes.Contains(b, m.MsgPayload.Data) ||
							!bytes.Contains(b, m.ServerConfiguration.SubProtocolName) {
							c.Failf("step %d: message exposes data of another message after %x was refused", n, clip(b))
						}
					}
				}
				if s := slots[o.Slot]; s != nil && s.open && !s.any && o.Append {
					// The payload is extended without being copied
					for p := s.m.Payload(); len(p) < cap(p); {
						p = append(p, 0xee)
					}
				}
				for j, s := range slots {
					if s == nil || !s.open || s.any {
						continue
					}
					if d := diffMsg(s.m, s.f); d != "" {
						c.Failf("step %d (%s slot %d): slot %d changed: %s", n, o.Op, o.Slot, j, d)
					}
				}
			}
		})
}

// C04

type chunk struct {
	N   int  // number of bytes, 0 for an empty read
	End bool // report the end together with the data

	Stall int `json:",omitempty"` // number of empty reads before
}

type c04Case struct {
	Msg    msgSpec
	Size   int // buffer size relative to the message length
	Chunks []chunk
	ErrAt  int // position at which the reader fails, -1 for none
	ErrVal int

	// Bytes is true if the message is handed over at once
	Bytes bool `json:",omitempty"`
}

type chunkReader struct {
	data   []byte
	pos    int
	chunks []chunk
	i      int
	errAt  int
	err    error

	stalled int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.errAt >= 0 && r.pos >= r.errAt {
		return 0, r.err
	}
	if len(p) < 1 {
		return 0, nil
	}
	n := len(p)
	end := false
	if r.i < len(r.chunks) {
		if r.stalled < r.chunks[r.i].Stall {
			r.stalled++
			return 0, nil
		}
		r.stalled = 0
		n, end = r.chunks[r.i].N, r.chunks[r.i].End
		r.i++
	}
	left := len(r.data) - r.pos
	if r.errAt >= 0 && r.errAt-r.pos < left {
		left = r.errAt - r.pos
	}
	if left < 1 && r.pos >= len(r.data) {
		return 0, io.EOF
	}
	if n > left {
		n = left
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if end {
		if r.errAt >= 0 && r.pos >= r.errAt {
			return n, r.err
		}
		if r.pos >= len(r.data) {
			return n, io.EOF
		}
	}
	return n, nil
}

func init() {
	register("C04", "legal messages delivered by a reader in random chunks (including empty reads and data together with EOF),"+
		" buffers smaller than, equal to and bigger than the message, reader failures at random positions;"+
		" non-trivial: more than one chunk, overflow or failure",
		120000, 3600000,
		func(t *rapid.T) c04Case {
			k := c04Case{Msg: genMsg(t, 3000)}
			k.Size = rapid.SampledFrom([]int{0, 0, 1, 2, 10, 100, -1, -1, -2, -10}).Draw(t, "size")
			k.Chunks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) chunk {
				return chunk{rapid.SampledFrom([]int{0, 1, 1, 2, 3, 7, 8, 9, 50, 1000}).Draw(t, "n"), rapid.Bool().Draw(t, "end"),
					rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 3, 10, 60}).Draw(t, "stall")}
			}), 0, 20).Draw(t, "chunks")
			k.ErrAt = -1
			if rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
				k.ErrAt = rapid.IntRange(0, 60).Draw(t, "errAt")
				k.ErrVal = rapid.IntRange(0, 2).Draw(t, "err")
			} else {
				k.Bytes = rapid.IntRange(0, 7).Draw(t, "bytes") == 3
			}
			return k
		},
		func(c *Ctx, k c04Case) {
			f := k.Msg.expect()
			data := f.encode()
			size := len(data) + k.Size
			if size < 1 {
				size = 1
			}
			if k.ErrAt >= len(data) {
				k.ErrAt = len(data)
			}
			r := &chunkReader{data: data, chunks: k.Chunks, errAt: k.ErrAt,
				err: []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe}[k.ErrVal%3]}
			rx := message.NewMessage(uint32(size))
			var typeParsed bool
			var err error
			if k.Bytes {
				src := append([]byte(nil), data...)
				typeParsed, err = rx.ReadBytes(src)
				for i := range src {
					src[i] ^= 0x55
				}
			} else {
				typeParsed, err = rx.Read(r)
			}
			overflow := len(data) > size
			failed := k.ErrAt >= 0
			c.Nontrivial(len(k.Chunks) > 1 || overflow || failed)
			c.Class("overflow", overflow)
			c.Class("exact-fit", len(data) == size)
			c.Class("reader-failure", failed)
			if overflow || failed {
				if err == nil {
					c.Failf("a message of %d bytes (buffer %d, failure at %d) was accepted", len(data), size, k.ErrAt)
				}
				if typeParsed {
					c.Failf("type reported as parsed despite of %v", err)
				}
				if !rx.MsgBuffer.IsEmpty() {
					c.Failf("the buffer isn't empty after %v", err)
				}
			} else {
				if err != nil || !typeParsed {
					c.Failf("a message of %d bytes (buffer %d) was refused: %v", len(data), size, err)
				}
				if d := diffMsg(rx, f); d != "" {
					c.Failf("message differs: %s", d)
				}
			}
			// The message object must remain usable
			rx.Close()
			hb := frame{Type: tHeartbeat}
			next := hb.encode()
			if k.Bytes {
				if ok, err := rx.ReadBytes(next); !ok || err != nil {
					c.Failf("can't read the next message: %v", err)
				}
			} else if ok, err := rx.Read(bytes.NewReader(next)); !ok || err != nil {
				c.Failf("can't read the next message: %v", err)
			}
			if d := diffMsg(rx, hb); d != "" {
				c.Failf("next message differs: %s", d)
			}
		})
}

// C05

type c05Case struct {
	Msg       msgSpec
	Illegal   string
	At        int
	Char      byte
	FailWrite int
	FailClose bool
	Short     bool
}

func init() {
	register("C05", "legal messages with a failing n-th write or closure, and illegal ones (name too long, unprintable characters,"+
		" odd UTF16 payloads, empty requests, bad error codes and reply types); non-trivial: a fault or illegal input was effective",
		150000, 4500000,
		func(t *rapid.T) c05Case {
			k := c05Case{FailWrite: -1}
			k.Msg = genMsg(t, 300)
			if k.Msg.Kind == "conf" {
				k.Msg = msgSpec{Kind: "heartbeat"}
			}
			k.FailClose = rapid.IntRange(0, 3).Draw(t, "failClose") == 0
			if rapid.Bool().Draw(t, "illegal") {
				k.Illegal = rapid.SampledFrom([]string{"name", "char", "odd", "empty", "code0", "code256", "codechar", "special"}).Draw(t, "what")
				k.At = rapid.IntRange(0, 300).Draw(t, "at")
				k.Char = rapid.SampledFrom([]byte{0, 1, 9, 10, 31, 127, 128, 200, 255}).Draw(t, "char")
				pick := func(kinds ...string) {
					k.Msg.Kind = rapid.SampledFrom(kinds).Draw(t, "illKind")
					if k.Msg.Kind != "reply" {
						k.Msg.Name = genName(t, 1, 255, "illName")
					}
				}
				switch k.Illegal {
				case "name":
					pick("request", "signal")
					k.Msg.Name = bytes.Repeat([]byte{'n'}, rapid.SampledFrom([]int{256, 257, 300, 511, 512, 1000}).Draw(t, "nameLen"))
				case "char":
					pick("request", "signal")
					k.Msg.Safe = true
					k.Msg.Name[k.At%len(k.Msg.Name)] = k.Char
				case "odd":
					pick("request", "signal", "reply")
					k.Msg.Enc = encUtf16
					b := genBlob(t, 1, 301, "odd")
					if b.len()%2 == 0 {
						b.B = append(b.B, 'x')
					}
					k.Msg.Payload = b
				case "empty":
					k.Msg = msgSpec{Kind: "request", ID: k.Msg.ID, Enc: genEnc(t), Safe: k.Msg.Safe}
				case "code0":
					pick("error")
					k.Msg.Name, k.Msg.Safe = nil, true
				case "code256":
					pick("error")
					k.Msg.Safe = true
					k.Msg.Name = bytes.Repeat([]byte{'c'}, rapid.SampledFrom([]int{256, 257, 300, 511, 512, 1000}).Draw(t, "codeLen"))
				case "codechar":
					pick("error")
					k.Msg.Safe = true
					k.Msg.Name[k.At%len(k.Msg.Name)] = k.Char
				case "special":
					k.Msg = msgSpec{Kind: "special", ID: k.Msg.ID}
					k.Msg.Special = rapid.SampledFrom([]byte{0, 6, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255}).Draw(t, "special")
				}
			} else if rapid.IntRange(0, 3).Draw(t, "fail") > 0 {
				k.FailWrite = rapid.IntRange(0, 7).Draw(t, "failWrite")
				k.Short = rapid.Bool().Draw(t, "short")
			}
			return k
		},
		func(c *Ctx, k c05Case) {
			w := &recWriter{failWrite: k.FailWrite, failClose: k.FailClose, short: k.Short}
			err := k.Msg.write(w)
			c.Class(k.Illegal, k.Illegal != "")
			c.Class("write-fault", w.failed)
			c.Class("close-fault", k.FailClose)
			c.Nontrivial(k.Illegal != "" || w.failed || k.FailClose)
			if w.closes != 1 {
				c.Failf("the writer was closed %d times (error: %v)", w.closes, err)
			}
			if w.after > 0 {
				c.Failf("%d writes after a failed write or closure", w.after)
			}
			if k.Illegal != "" {
				if err == nil {
					c.Failf("no error on illegal input (%s)", k.Illegal)
				}
				if len(w.buf) > 0 {
					c.Failf("%d bytes of an illegal message were written", len(w.buf))
				}
				return
			}
			if (w.failed || k.FailClose) && err == nil {
				c.Failf("the failure of the writer was concealed")
			}
			if !w.failed && !k.FailClose && err != nil {
				c.Failf("unexpected error: %s", err)
			}
			if !w.failed && !bytes.Equal(w.buf, k.Msg.expect().encode()) {
				c.Failf("wrong bytes written")
			}
		})
}

// C06

type c06Case struct {
	Enc   int
	Units []uint16 `json:",omitempty"`
	Shift int      `json:",omitempty"` // number of ASCII units before
	Rep   int      `json:",omitempty"` // number of further repetitions
	Raw   Blob
	Odd   bool
	Via   int
}

// refUtf8 decodes UTF16 (little endian) and encodes UTF8
func refUtf8(units []uint16) (out []byte) {
	for i := 0; i < len(units); i++ {
		u := rune(units[i])
		switch {
		case u < 0xd800 || u > 0xdfff:
		case u < 0xdc00 && i+1 < len(units) && units[i+1] >= 0xdc00 && units[i+1] <= 0xdfff:
			u = 0x10000 + (u-0xd800)<<10 + (rune(units[i+1]) - 0xdc00)
			i++
		default:
			u = 0xfffd
		}
		switch {
		case u < 0x80:
			out = append(out, byte(u))
		case u < 0x800:
			out = append(out, 0xc0|byte(u>>6), 0x80|byte(u&0x3f))
		case u < 0x10000:
			out = append(out, 0xe0|byte(u>>12), 0x80|byte(u>>6&0x3f), 0x80|byte(u&0x3f))
		default:
			out = append(out, 0xf0|byte(u>>18), 0x80|byte(u>>12&0x3f), 0x80|byte(u>>6&0x3f), 0x80|byte(u&0x3f))
		}
	}
	return
}

func init() {
	register("C06", "UTF16 payloads made of ASCII, BMP, surrogate pairs, lone surrogates and boundary code points, plus odd lengths, and binary/UTF8"+
		" payloads of arbitrary bytes, via payload, message and reply objects, against an independent decoder;"+
		" non-trivial: UTF16 with a unit beyond ASCII, an odd length or a pass-through of invalid UTF8",
		180000, 5400000,
		func(t *rapid.T) c06Case {
			k := c06Case{Enc: rapid.SampledFrom([]int{encUtf16, encUtf16, encUtf16, encUtf8, encBinary}).Draw(t, "enc")}
			k.Via = rapid.IntRange(0, 2).Draw(t, "via")
			if k.Enc == encUtf16 {
				unit := rapid.Custom(func(t *rapid.T) []uint16 {
					switch rapid.IntRange(0, 5).Draw(t, "cls") {
					case 0:
						return []uint16{rapid.Uint16Range(0, 0x7f).Draw(t, "ascii")}
					case 1:
						return []uint16{rapid.Uint16().Draw(t, "any")}
					case 2:
						return []uint16{rapid.SampledFrom([]uint16{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0xfeff}).Draw(t, "boundary")}
					case 3:
						return []uint16{rapid.Uint16Range(0xd800, 0xdfff).Draw(t, "surrogate")}
					default:
						return []uint16{rapid.Uint16Range(0xd800, 0xdbff).Draw(t, "hi"), rapid.Uint16Range(0xdc00, 0xdfff).Draw(t, "lo")}
					}
				})
				for _, u := range rapid.SliceOfN(unit, 0, 20).Draw(t, "units") {
					k.Units = append(k.Units, u...)
				}
				if rapid.IntRange(0, 24).Draw(t, "long") == 0 {
					k.Shift = rapid.IntRange(0, 3).Draw(t, "shift")
					k.Rep = rapid.SampledFrom([]int{1, 10, 50, 300, 1000}).Draw(t, "rep")
				}
				k.Odd = rapid.IntRange(0, 7).Draw(t, "odd") == 0
			} else {
				k.Raw = genBlob(t, 0, 1000, "raw")
			}
			return k
		},
		func(c *Ctx, k c06Case) {
			data := k.Raw.bytes()
			want := data
			if k.Shift+k.Rep > 0 {
				units := []uint16{'a', 'b', 'c'}[:k.Shift]
				for i := 0; i <= k.Rep; i++ {
					units = append(units, k.Units...)
				}
				k.Units = units
			}
			if k.Enc == encUtf16 {
				data = nil
				surrogates := false
				for _, u := range k.Units {
					data = append(data, byte(u), byte(u>>8))
					c.Nontrivial(u > 0x7f)
					surrogates = surrogates || u >= 0xd800 && u <= 0xdfff
				}
				c.Class("surrogates", surrogates)
				c.Class("more than 4096 units", len(k.Units) > 4096)
				want = refUtf8(k.Units)
				if k.Odd {
					data = append(data, 'x')
				}
			} else {
				c.Nontrivial(!utf8.Valid(data))
			}
			c.Nontrivial(k.Odd)
			orig := append([]byte{}, data...)
			p := pld.Payload{Encoding: pld.Encoding(k.Enc), Data: data}
			var got []byte
			var err error
			if k.Via == 0 || k.Odd || len(data) < 1 {
				p.Data = romLoad(data)[0]
				romGuard(c, "converting a payload", func() { got, err = p.Utf8() })
			} else {
				f := frame{Type: byte(tSignal + k.Enc), Name: []byte("nn"), Payload: data, Enc: k.Enc}
				if k.Via == 2 {
					f = frame{Type: byte(tReply + k.Enc), Payload: data, Enc: k.Enc}
				}
				m := message.NewMessage(uint32(len(data) + 300))
				if ok, err := m.ReadBytes(f.encode()); !ok || err != nil {
					c.Failf("valid message refused: %v", err)
				}
				m.MsgPayload.Data = romLoad(m.MsgPayload.Data)[0]
				var wm wwr.Message = m
				romGuard(c, "converting a payload", func() { got, err = wm.PayloadUtf8() })
			}
			if k.Odd {
				if err == nil {
					c.Failf("an odd number of bytes was accepted as UTF16")
				}
				return
			}
			if err != nil {
				c.Failf("conversion failed: %s", err)
			}
			if !bytes.Equal(got, want) {
				c.Failf("encoding %d, %x converted to %x, want %x", k.Enc, clip(data), clip(got), clip(want))
			}
			if k.Enc == encUtf16 && !utf8.Valid(got) {
				c.Failf("the result isn't valid UTF8")
			}
			if !bytes.Equal(data, orig) {
				c.Failf("the payload was modified")
			}
		})
}
