package wwcheck

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

var discard = log.New(io.Discard, "", 0)

// ---------------------------------------------------------------------------------------------
// C07: the handshake announces the effective configuration before anything else happens

type connSpec struct {
	Info   map[int]string `json:",omitempty"`
	Limit  int
	Faults Faults
}

type c07 struct {
	NilImpl, NilTransport bool `json:",omitempty"`
	InitErr               bool `json:",omitempty"`
	BufSize               uint32
	Timeout               time.Duration
	SubProto              Blob
	Sessions              wwr.OptionValue
	Conns                 []connSpec
}

func init() {
	registerNoisy("C07",
		"the server was created and at least one connection was attempted",
		9000, 270000,
		func(t *rapid.T) (c c07) {
			switch rapid.IntRange(0, 19).Draw(t, "broken") {
			case 0:
				c.NilImpl = true
			case 1:
				c.NilTransport = true
			case 2:
				c.InitErr = true
			}
			c.BufSize = rapid.OneOf(
				rapid.SampledFrom([]uint32{0, 0, 1, 31, 32, 33, 8192, math.MaxUint32 / 1024}),
				rapid.Uint32Range(0, 5000)).Draw(t, "bufSize")
			ms := time.Millisecond
			c.Timeout = rapid.OneOf(
				rapid.SampledFrom([]time.Duration{0, -time.Second, 1, 999 * ms, time.Second - 1, time.Second,
					1001 * ms, time.Second + 1, 60 * time.Second, math.MaxUint32 * ms,
					math.MaxUint32*ms + ms - 1, (math.MaxUint32 + 1) * ms, math.MaxInt64}),
				rapid.Map(rapid.Int64Range(1000000, 1<<53), func(us int64) time.Duration {
					return time.Duration(us) * time.Microsecond
				}),
				rapid.Map(rapid.Int64Range(1000, 4294967295), func(n int64) time.Duration {
					return time.Duration(n) * ms
				})).Draw(t, "timeout")
			c.SubProto = genBlob(t, 0, 300, "subProto")
			c.Sessions = rapid.Int32Range(0, 2).Draw(t, "sessions")
			n := rapid.IntRange(1, 4).Draw(t, "conns")
			for i := 0; i < n; i++ {
				cs := connSpec{Limit: rapid.IntRange(-1, 4).Draw(t, "limit")}
				k := rapid.IntRange(0, 3).Draw(t, "infos")
				for j := 0; j < k; j++ {
					if cs.Info == nil {
						cs.Info = map[int]string{}
					}
					cs.Info[rapid.IntRange(-2, 5).Draw(t, "key")] = rapid.StringN(0, 5, 20).Draw(t, "val")
				}
				switch rapid.IntRange(0, 7).Draw(t, "fault") {
				case 0:
					cs.Faults.Writers = []int{0}
				case 1:
					cs.Faults.Writes = []int{0}
				case 2:
					cs.Faults.Closes = []int{0}
				}
				c.Conns = append(c.Conns, cs)
			}
			return
		},
		runC07)
}

func runC07(c *Ctx, k c07) {
	sched := newSched("connected")
	w := &world{c: c, sched: sched, warn: &logBuf{}, errs: &logBuf{}}
	w.impl = &implStub{w: w, conns: map[int]wwr.Connection{}}
	w.sm = newSM(sched)
	w.tr = newFakeTransport(sched)
	if k.InitErr {
		w.tr.initErr = errFault
	}
	handled := map[int]int{}
	var mu sync.Mutex
	w.impl.onRequest = func(id int, _ wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
		mu.Lock()
		handled[id]++
		mu.Unlock()
		return wwr.Payload{}, nil
	}
	var impl wwr.ServerImplementation
	if !k.NilImpl {
		impl = w.impl
	}
	var tr wwr.Transport
	if !k.NilTransport {
		tr = w.tr
	}
	sub := k.SubProto.bytes()
	srv, err := wwr.NewServer(impl, wwr.ServerOptions{
		Sessions: k.Sessions, SessionManager: w.sm, SessionKeyGenerator: &keyGen{sched: sched},
		WarnLog: log.New(w.warn, "", 0), ErrorLog: log.New(w.errs, "", 0),
		ReadTimeout: k.Timeout, SubProtocolName: append([]byte{}, sub...), MessageBufferSize: k.BufSize,
	}, tr)

	timeout, bufSize := k.Timeout, k.BufSize
	if timeout < time.Second {
		timeout = 60 * time.Second
	}
	if bufSize == 0 {
		bufSize = 8192
	}
	reject := k.NilImpl || k.NilTransport || k.InitErr || bufSize < 32 ||
		timeout/time.Millisecond > math.MaxUint32
	if reject {
		if err == nil {
			c.Failf("NewServer accepted an invalid setup: %+v", k)
		}
		if !k.NilTransport && !k.InitErr && w.tr.initialized > 0 {
			c.Failf("the transport was initialised although the setup is invalid: %+v", k)
		}
		c.Class("rejected", true)
		return
	}
	if err != nil || srv == nil {
		c.Failf("NewServer rejected a valid setup %+v: %v", k, err)
	}
	w.srv = srv
	c.Cleanup(w.teardown)
	c.Nontrivial(true)
	if w.tr.initialized != 1 {
		c.Failf("the transport was initialised %d times", w.tr.initialized)
	}
	if w.tr.options.MessageBufferSize != bufSize || w.tr.options.ReadTimeout != timeout {
		c.Failf("the transport was given a buffer size of %d and a timeout of %s, expected %d and %s",
			w.tr.options.MessageBufferSize, w.tr.options.ReadTimeout, bufSize, timeout)
	}
	want := frame{Type: tAcceptConf, Major: 2, Minor: 0, BufSize: bufSize,
		Timeout: timeout.Truncate(time.Millisecond), SubProto: sub}.encode()

	faulty := func(f Faults) bool { return len(f.Writers)+len(f.Writes)+len(f.Closes) > 0 }
	var socks []*fakeSock
	for _, cs := range k.Conns {
		o := wwr.ConnectionOptions{ConcurrencyLimit: cs.Limit}
		if cs.Info != nil {
			o.Info = map[int]interface{}{}
			for key, v := range cs.Info {
				o.Info[key] = v
			}
		}
		s := w.tr.connect(o, cs.Faults)
		socks = append(socks, s)
		// A request that's already waiting
		s.send(frame{Type: tRequest, ID: idOf(7), Name: []byte("early")}.encode())
	}
	before := time.Now()
	c.Settle()
	w.checkPanics()
	for i, cs := range k.Conns {
		s := socks[i]
		got := s.received()
		if faulty(cs.Faults) {
			c.Class("handshake fault", true)
			if w.impl.numConnected(i) != 0 {
				c.Failf("OnClientConnected was invoked although the handshake failed: %+v", cs.Faults)
			}
			if !s.isClosed() {
				c.Failf("the connection is still open although the handshake failed: %+v", cs.Faults)
			}
			continue
		}
		// OnClientConnected is still running
		if len(got) != 1 || !bytes.Equal(got[0].data, want) {
			c.Failf("unexpected handshake: got %d frames %x, expected %x", len(got), got, want)
		}
		if n := w.impl.numConnected(i); n != 1 {
			c.Failf("OnClientConnected was invoked %d times after the handshake", n)
		}
		if mu.Lock(); handled[i] != 0 {
			c.Failf("a request was handled before OnClientConnected returned")
		}
		mu.Unlock()
	}
	w.impl.mu.Lock()
	for _, e := range w.impl.connectedAt {
		if f := socks[e.id].received(); len(f) < 1 || f[0].seq > e.seq {
			w.impl.mu.Unlock()
			c.Failf("OnClientConnected was invoked before the configuration was sent")
		}
	}
	w.impl.mu.Unlock()
	sched.Off()
	c.Settle()
	w.checkPanics()
	for i, cs := range k.Conns {
		if faulty(cs.Faults) {
			if n := w.impl.numDisconnected(i); n != 0 {
				c.Failf("OnClientDisconnected was invoked %d times for a connection that was never established", n)
			}
			if handled[i] != 0 {
				c.Failf("a request was handled on a connection that was never established")
			}
			continue
		}
		p := &peer{fakeSock: socks[i], w: w, conn: w.impl.conn(i)}
		if l := p.replies(idOf(7)); len(l) != 1 || l[0].Type != tReply {
			c.Failf("the waiting request wasn't replied to after OnClientConnected: %+v", l)
		}
		if !p.conn.IsActive() {
			c.Failf("an established connection isn't active")
		}
		for key := -3; key < 7; key++ {
			v, ok := cs.Info[key]
			got := p.conn.Info(key)
			if (ok && got != v) || (!ok && got != nil) {
				c.Failf("Info(%d) is %#v, the transport provided %q (%t)", key, got, v, ok)
			}
		}
		if p.conn.RemoteAddr() != fakeAddr(i) {
			c.Failf("unexpected remote address %v", p.conn.RemoteAddr())
		}
		if d := p.conn.Creation().Sub(before); d > time.Hour || d < -time.Hour {
			c.Failf("unexpected connection creation time: %s", p.conn.Creation())
		}
		if _, ok := p.conn.SessionInfo("x").(interface{}); ok || p.conn.HasSession() ||
			p.conn.Session() != nil || p.conn.SessionKey() != "" {
			c.Failf("a fresh connection has a session")
		}
	}
	w.checkWriters()
}

// ---------------------------------------------------------------------------------------------
// C08: every request is replied to exactly once with the outcome of its handler

type reqOp struct {
	Conn    int
	Kind    string // request, restore, closesession, signal, heartbeat
	Enc     int
	Name    []byte `json:",omitempty"`
	Payload Blob
	Out     string // payload, error, reqerr, reqerrptr, liberr
	Lib     int    `json:",omitempty"` // index into libErrs
	RepEnc  int
	Rep     Blob
	Code    string `json:",omitempty"`
	Msg     string `json:",omitempty"`
	Park    bool   `json:",omitempty"`
}

type c08 struct {
	Buf      uint32
	Limits   []int
	Sessions bool
	Chunked  bool
	Age      int `json:",omitempty"`
	Ops      []reqOp
	Choices  []int
}

// genFit draws a length of which a message with the given overhead may or may not fit the buffer
func genFit(t *rapid.T, buf, overhead int, label string) int {
	room := buf - overhead
	n := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, buf+20),
		rapid.IntRange(room-2, room+2)).Draw(t, label)
	if n < 0 {
		n = 0
	}
	return n
}

func genCode(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "codeMode") {
	case 0:
		return strings.Repeat("E", rapid.SampledFrom([]int{0, 1, 254, 255, 256, 300}).Draw(t, "codeLen"))
	case 1:
		if rapid.Bool().Draw(t, "wideCode") {
			return strings.Repeat("é", rapid.SampledFrom([]int{1, 2, 100, 127, 128}).Draw(t, "wideLen"))
		}
		b := []byte("CODE")
		b[rapid.IntRange(0, 3).Draw(t, "at")] =
			rapid.SampledFrom([]byte{31, 32, 126, 127, 0, 200, '\n'}).Draw(t, "char")
		return string(b)
	}
	return rapid.StringMatching(`[A-Z_]{1,12}`).Draw(t, "code")
}

// libErrs are errors of the library (and wrapped errors) returned by request handlers: all but
// request errors are internal errors, whose nature isn't disclosed to the client
var libErrs = []error{
	wwr.ErrSessionNotFound{}, wwr.ErrSessionsDisabled{}, wwr.ErrMaxSessConnsReached{},
	wwr.ErrInternal{}, wwr.ErrServerShutdown{}, wwr.ErrBufferOverflow{},
	wwr.ErrTransmission{Cause: errSecret}, wwr.ErrDisconnected{Cause: errSecret},
	wwr.ErrTimeout{Cause: errSecret}, wwr.ErrProtocol{Cause: errSecret}, io.EOF,
	fmt.Errorf("wrapped: %w", wwr.ErrRequest{Code: "SECRET", Message: "secret"}),
	fmt.Errorf("wrapped: %w", wwr.ErrSessionNotFound{}),
}

// failKeys are the keys of sessions which can't be restored, only the first doesn't exist
var failKeys = []string{"unknown", "lookup-error", "too-large", "undeliverable"}

func genReqOp(t *rapid.T, conns, buf int) (o reqOp) {
	o.Conn = rapid.IntRange(0, conns-1).Draw(t, "conn")
	o.Kind = rapid.SampledFrom([]string{"request", "request", "request", "request", "request", "request",
		"restore", "closesession", "signal", "heartbeat"}).Draw(t, "kind")
	if o.Kind == "restore" {
		o.Lib = rapid.IntRange(0, len(failKeys)-1).Draw(t, "key")
	}
	if o.Kind != "request" && o.Kind != "signal" {
		return
	}
	o.Enc = genEnc(t)
	o.Name = genName(t, 0, 20, "name")
	max := buf - 13 - len(o.Name)
	if max < 0 {
		o.Name, max = o.Name[:1], buf-14
	}
	o.Payload = evenIf(o.Enc == encUtf16, genBlob(t, 0, max, "payload"))
	if len(o.Name) < 1 && o.Payload.len() < 1 {
		o.Name = []byte("n")
	}
	o.Park = rapid.IntRange(0, 2).Draw(t, "park") == 0
	if o.Kind == "signal" {
		return
	}
	o.Out = rapid.SampledFrom([]string{"payload", "payload", "payload", "reqerr", "reqerrptr",
		"error", "liberr"}).Draw(t, "out")
	switch o.Out {
	case "liberr":
		o.Lib = rapid.IntRange(0, len(libErrs)-1).Draw(t, "lib")
	case "payload":
		o.RepEnc = genEnc(t)
		o.Rep = Blob{N: genFit(t, buf, 9, "rep"), S: rapid.Uint64().Draw(t, "repSeed")}
		if genRarely(t, "huge") {
			o.Rep = genHuge(t, buf)
		}
	case "reqerr", "reqerrptr":
		o.Code = genCode(t)
		n := genFit(t, buf, 10+len(o.Code), "msgLen")
		if genRarely(t, "huge") {
			n = genHuge(t, buf).len()
		}
		if n < 30 {
			o.Msg = strings.Repeat("m", n)
		} else {
			o.Msg = strings.Repeat("message", n/7+1)[:n]
		}
		if rapid.IntRange(0, 2).Draw(t, "wide") == 1 {
			// The same number of bytes or slightly more, but less characters
			o.Msg = strings.Repeat("ü", (n+1)/2)
		}
	}
	return
}

// request returns the message sent by the client
func (o reqOp) frame(id [8]byte) frame {
	switch o.Kind {
	case "request":
		return frame{Type: byte(tRequest + o.Enc), ID: id, Name: o.Name, Payload: o.Payload.bytes(), Enc: o.Enc}
	case "signal":
		return frame{Type: byte(tSignal + o.Enc), Name: o.Name, Payload: o.Payload.bytes(), Enc: o.Enc}
	case "restore":
		return frame{Type: tRestore, ID: id, Payload: []byte(failKeys[o.Lib%len(failKeys)])}
	case "closesession":
		return frame{Type: tCloseSession, ID: id}
	}
	return frame{Type: tHeartbeat}
}

// reply returns the expected reply
func (o reqOp) reply(id [8]byte, buf uint32, sessions bool) frame {
	internal := frame{Type: tReplyInternal, ID: id}
	if o.Kind == "restore" || o.Kind == "closesession" {
		switch {
		case !sessions:
			return frame{Type: tReplyDisabled, ID: id}
		case o.Kind == "restore" && o.Lib == 0:
			return frame{Type: tReplyNotFound, ID: id}
		case o.Kind == "restore":
			return internal
		}
		return frame{Type: tReply, ID: id}
	}
	var f frame
	switch o.Out {
	case "payload":
		f = frame{Type: byte(tReply + o.RepEnc), ID: id, Payload: o.Rep.bytes(), Enc: o.RepEnc}
		if o.RepEnc == encUtf16 && o.Rep.len()%2 != 0 {
			return internal
		}
	case "reqerr", "reqerrptr":
		f = frame{Type: tReplyError, ID: id, Name: []byte(o.Code), Payload: []byte(o.Msg)}
		if len(o.Code) < 1 || len(o.Code) > 255 {
			return internal
		}
		for _, ch := range []byte(o.Code) {
			if ch < 32 || ch > 126 {
				return internal
			}
		}
	default:
		return internal
	}
	if len(f.encode()) > int(buf) {
		return internal
	}
	return f
}

func init() {
	registerNoisy("C08",
		"at least two requests, one of which fails or whose reply can't be transmitted, were replied to",
		4500, 135000,
		func(t *rapid.T) (c c08) {
			c.Buf = rapid.OneOf(rapid.SampledFrom([]uint32{32, 33, 64, 300, 1024}),
				rapid.Uint32Range(32, 600)).Draw(t, "buf")
			if genRarely(t, "isLarge") {
				c.Buf = rapid.SampledFrom([]uint32{32767, 65535, 65536, 65540}).Draw(t, "largeBuf")
			}
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 8}).Draw(t, "limit"))
			}
			c.Sessions = rapid.Bool().Draw(t, "sessions")
			c.Chunked = rapid.Bool().Draw(t, "chunked")
			c.Age = genAge(t)
			m := rapid.IntRange(1, 12).Draw(t, "ops")
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, genReqOp(t, n, int(c.Buf)))
			}
			c.Choices = rapid.SliceOfN(rapid.IntRange(0, 7), m, m).Draw(t, "choices")
			return
		},
		runC08)
}

func runC08(c *Ctx, k c08) {
	opt := wwr.OptionValue(wwr.Disabled)
	if k.Sessions {
		opt = wwr.Enabled
	}
	w := newWorld(c, worldOpts{Sessions: opt, BufSize: k.Buf, Chunked: k.Chunked, Age: k.Age}, "handler")
	w.prepareFailures()
	w.impl.onRequest = func(id int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		ident := m.Identifier()
		n := -1
		for i := range k.Ops {
			if ident == idOf(uint64(i+1)) {
				n = i
			}
		}
		if n < 0 {
			return wwr.Payload{}, errors.New("unknown identifier")
		}
		o := k.Ops[n]
		if o.Park {
			w.sched.Point("handler", fmt.Sprint(n))
		}
		switch o.Out {
		case "payload":
			return wwr.Payload{Encoding: wwr.PayloadEncoding(o.RepEnc), Data: o.Rep.bytes()}, nil
		case "reqerr":
			return wwr.Payload{}, wwr.ErrRequest{Code: o.Code, Message: o.Msg}
		case "reqerrptr":
			return wwr.Payload{}, &wwr.ErrRequest{Code: o.Code, Message: o.Msg}
		}
		if o.Out == "liberr" {
			return wwr.Payload{Data: []byte("secret-payload")}, libErrs[o.Lib]
		}
		return wwr.Payload{Data: []byte("secret-payload")}, errSecret
	}
	w.impl.onSignal = func(id int, _ wwr.Connection, m wwr.Message) {
		w.sched.Point("handler", "signal")
	}
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	for i, o := range k.Ops {
		peers[o.Conn].send(o.frame(idOf(uint64(i + 1))).encode())
		if k.Choices[i]%2 == 0 {
			c.Settle()
			w.sched.Release(k.Choices[i])
		}
	}
	for i := 0; ; i++ {
		c.Settle()
		if w.sched.Release(k.Choices[i%len(k.Choices)]) == "" {
			break
		}
	}
	w.checkPanics()
	requests, internal, secrets := 0, 0, 0
	for ci, p := range peers {
		if p.isClosed() {
			c.Failf("connection %d was closed though all messages are valid", ci)
		}
		if !p.isReading() || p.pendingIn() > 0 {
			c.Failf("connection %d is stuck, %d messages weren't read", ci, p.pendingIn())
		}
		expected := map[[8]byte]frame{}
		for i, o := range k.Ops {
			if o.Conn != ci || o.Kind == "signal" || o.Kind == "heartbeat" {
				continue
			}
			id := idOf(uint64(i + 1))
			want := o.reply(id, k.Buf, k.Sessions)
			expected[id] = want
			got := p.replies(id)
			requests++
			if want.Type == tReplyInternal {
				internal++
			}
			if o.Out == "error" {
				secrets++
			}
			if len(got) != 1 {
				c.Failf("request %d (%s) on connection %d was replied to %d times: %+v", i, o.Kind, ci, len(got), got)
			}
			if !bytes.Equal(got[0].encode(), want.encode()) {
				c.Failf("request %d (%+v) on connection %d: expected reply %x, got %x", i, o, ci,
					want.encode(), got[0].encode())
			}
		}
		for i, f := range p.received() {
			if i == 0 {
				continue
			}
			d, v := decode(f.data)
			if _, ok := expected[d.ID]; v == invalid || !d.hasID() || !ok {
				c.Failf("connection %d received an unexpected message: %x", ci, f.data)
			}
			if len(f.data) > int(k.Buf) {
				c.Failf("connection %d received %d bytes, the message buffer size is %d", ci, len(f.data), k.Buf)
			}
			if bytes.Contains(f.data, []byte("secret")) {
				c.Failf("an internal error leaked to the client: %q", f.data)
			}
		}
	}
	if n := strings.Count(w.errs.String(), "secret-4711"); n < secrets {
		c.Failf("%d handlers failed with an internal error, but only %d errors were logged", secrets, n)
	}
	w.checkWriters()
	c.Nontrivial(requests >= 2 && internal >= 1)
	c.Class("internal error reply", internal > 0)
	c.Class("several connections", len(peers) > 1)
}

// ---------------------------------------------------------------------------------------------
// C09: handlers are given each message exactly once, intact for as long as they run

type c09 struct {
	Buf     uint32
	Limits  []int
	Chunked bool
	Ops     []c09op
}

type c09op struct {
	Release int    `json:",omitempty"` // releases a handler if > 0
	Conn    int    `json:",omitempty"`
	Signal  bool   `json:",omitempty"`
	Enc     int    `json:",omitempty"`
	Name    []byte `json:",omitempty"`
	Payload Blob
}

type seenMsg struct {
	conn    int
	signal  bool
	id      [8]byte
	name    string
	payload string
	enc     int
}

func (s seenMsg) String() string {
	return fmt.Sprintf("conn %d signal %t id %x name %q payload %q encoding %d", s.conn, s.signal, s.id,
		s.name, s.payload, s.enc)
}

func init() {
	registerNoisy("C09",
		"at least 3 messages were handled, two of them at the same time",
		4500, 135000,
		func(t *rapid.T) (c c09) {
			c.Buf = rapid.SampledFrom([]uint32{32, 40, 128, 600}).Draw(t, "buf")
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 4}).Draw(t, "limit"))
			}
			c.Chunked = rapid.Bool().Draw(t, "chunked")
			m := rapid.IntRange(1, 16).Draw(t, "ops")
			for i := 0; i < m; i++ {
				o := c09op{}
				if i > 0 && rapid.IntRange(0, 2).Draw(t, "release") == 0 {
					o.Release = 1 + rapid.IntRange(0, 5).Draw(t, "choice")
					c.Ops = append(c.Ops, o)
					continue
				}
				o.Conn = rapid.IntRange(0, n-1).Draw(t, "conn")
				o.Signal = rapid.Bool().Draw(t, "signal")
				o.Enc = genEnc(t)
				overhead := 11
				if o.Signal {
					overhead = 3
				}
				max := int(c.Buf) - overhead
				nameMax := max
				if nameMax > 255 {
					nameMax = 255
				}
				o.Name = genName(t, 0, nameMax, "name")
				o.Payload = evenIf(o.Enc == encUtf16, genBlob(t, 0, max-len(o.Name), "payload"))
				if len(o.Name) < 1 && o.Payload.len() < 1 {
					o.Name = []byte("x")
				}
				c.Ops = append(c.Ops, o)
			}
			return
		},
		runC09)
}

func runC09(c *Ctx, k c09) {
	w := newWorld(c, worldOpts{Sessions: wwr.Disabled, BufSize: k.Buf, Chunked: k.Chunked}, "handler")
	var mu sync.Mutex
	var seen []seenMsg
	corrupt := ""
	n, running, maxRunning := 0, 0, 0
	snapshot := func(conn int, signal bool, m wwr.Message) seenMsg {
		return seenMsg{conn, signal, m.Identifier(), string(m.Name()), string(m.Payload()),
			int(m.PayloadEncoding())}
	}
	handle := func(conn int, signal bool, m wwr.Message) []byte {
		s := snapshot(conn, signal, m)
		mu.Lock()
		seen = append(seen, s)
		label := fmt.Sprint(n)
		n++
		if running++; running > maxRunning {
			maxRunning = running
		}
		mu.Unlock()
		w.sched.Point("handler", label)
		e := snapshot(conn, signal, m)
		mu.Lock()
		running--
		if e != s {
			corrupt = fmt.Sprintf("a message changed while its handler was running:\n%s\n%s", s, e)
		}
		mu.Unlock()
		return []byte("reply")
	}
	w.impl.onRequest = func(id int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{Data: handle(id, false, m)}, nil
	}
	w.impl.onSignal = func(id int, _ wwr.Connection, m wwr.Message) { handle(id, true, m) }
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	var sent []seenMsg
	for i, o := range k.Ops {
		if o.Release > 0 {
			c.Settle()
			w.sched.Release(o.Release - 1)
			continue
		}
		f := frame{Type: byte(tRequest + o.Enc), ID: idOf(uint64(i)), Name: o.Name,
			Payload: o.Payload.bytes(), Enc: o.Enc}
		if o.Signal {
			f.Type, f.ID = byte(tSignal+o.Enc), [8]byte{}
		}
		sent = append(sent, seenMsg{o.Conn, o.Signal, f.ID, string(f.Name), string(f.Payload), o.Enc})
		peers[o.Conn].send(f.encode())
	}
	for i := 0; ; i++ {
		c.Settle()
		if w.sched.Release(i) == "" {
			break
		}
	}
	w.checkPanics()
	mu.Lock()
	defer mu.Unlock()
	if corrupt != "" {
		c.Failf("%s", corrupt)
	}
	str := func(l []seenMsg) (r []string) {
		for _, s := range l {
			r = append(r, s.String())
		}
		sort.Strings(r)
		return
	}
	a, b := str(sent), str(seen)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		c.Failf("the messages handled aren't the messages sent\nsent:\n%s\nhandled:\n%s",
			strings.Join(a, "\n"), strings.Join(b, "\n"))
	}
	for ci, p := range peers {
		for i, s := range sent {
			if s.conn == ci && !s.signal && len(p.replies(s.id)) != 1 {
				c.Failf("request %d was replied to %d times", i, len(p.replies(s.id)))
			}
		}
	}
	c.Nontrivial(len(seen) >= 3 && maxRunning >= 2)
	c.Class("several connections", len(peers) > 1)
	c.Class("concurrent handlers", maxRunning > 1)
}

// unexpectedFrame returns a valid message clients don't send to servers, it's ignored by the server
func unexpectedFrame(pick int) frame {
	switch pick {
	case 0:
		return frame{Type: tReplyInternal, ID: idOf(99)}
	case 1:
		return frame{Type: tReplyError, ID: idOf(99), Name: []byte("CODE"), Payload: []byte("message")}
	case 2:
		return frame{Type: tSessClosed}
	case 3:
		return frame{Type: tReplyShutdown, ID: idOf(99)}
	case 4:
		return frame{Type: tReply + encUtf8, ID: idOf(99), Payload: []byte("payload")}
	}
	return frame{Type: tReply, ID: idOf(99)}
}

// ---------------------------------------------------------------------------------------------
// C10: the concurrency limit of a connection is exploited but never exceeded

type c10 struct {
	Limits []int
	Ops    []c10op
	Age    int      `json:",omitempty"`
	Sess   sessMode `json:",omitempty"`
}

type c10op struct {
	Kind string // request, signal, heartbeat, release, unexpected, restore, closesession
	Conn int
	Pick int
	More int `json:",omitempty"` // the number of further requests or signals sent or handlers released at once
}

func init() {
	registerNoisy("C10",
		"at least once more messages were outstanding on a connection than it may handle concurrently",
		4500, 135000,
		func(t *rapid.T) (c c10) {
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-5, -1, 0, 1, 2, 3, 4}).Draw(t, "limit"))
			}
			c.Sess = genSessMode(t)
			c.Age = genAge(t)
			m := rapid.IntRange(1, 24).Draw(t, "ops")
			large := rapid.IntRange(0, 59).Draw(t, "large") == 37
			if large {
				n, m = 1, rapid.IntRange(2, 8).Draw(t, "largeOps")
				c.Limits = []int{rapid.SampledFrom([]int{5, 8, 16, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257,
					300, 1024, 65535, 65536, 65538, math.MaxInt32, math.MaxInt32 + 3, math.MaxInt64, -128, -255, -256, -65536,
					math.MinInt32, math.MinInt64}).Draw(t, "largeLimit")}
			}
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, c10op{
					Kind: rapid.SampledFrom([]string{"request", "request", "signal", "signal", "heartbeat",
						"unexpected", "restore", "closesession", "release", "release"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
					Pick: rapid.IntRange(0, 5).Draw(t, "pick"),
				})
				if l := c.Limits[0]; large {
					if l < 1 || l > 300 {
						l = 20
					}
					c.Ops[i].More = rapid.SampledFrom([]int{0, 0, 2, l / 2, l - 1, l, l + 3}).Draw(t, "more")
				}
			}
			return
		},
		runC10)
}

func runC10(c *Ctx, k c10) {
	w := newWorld(c, k.Sess.opts(worldOpts{Age: k.Age}), "handler")
	var mu sync.Mutex
	started := map[int][]string{}
	handle := func(conn int, m wwr.Message) {
		name := string(m.Name())
		mu.Lock()
		started[conn] = append(started[conn], name)
		mu.Unlock()
		w.sched.Point("handler", fmt.Sprintf("c%d/%s", conn, name))
	}
	w.impl.onRequest = func(id int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(id, m)
		return wwr.Payload{}, nil
	}
	w.impl.onSignal = func(id int, _ wwr.Connection, m wwr.Message) { handle(id, m) }
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	k.Sess.prepareOutcomes(w)
	sent := map[int][]string{}
	finished := map[int]int{}
	saturated := false
	check := func(step string) {
		c.Settle()
		w.checkPanics()
		for ci, l := range k.Limits {
			outstanding := len(sent[ci]) - finished[ci]
			want := outstanding
			if l >= 0 && want > l {
				want = l
				if l < 1 {
					want = 1
				}
				saturated = true
			}
			if got := w.sched.Count("handler", fmt.Sprintf("c%d/", ci)); got != want {
				c.Failf("after %s: connection %d with a limit of %d and %d outstanding messages runs %d handlers",
					step, ci, l, outstanding, got)
			}
			mu.Lock()
			st := append([]string{}, started[ci]...)
			mu.Unlock()
			prefix := append([]string{}, sent[ci][:len(st)]...)
			if l < 0 || l > 1 {
				sort.Strings(prefix)
				sort.Strings(st)
			}
			if strings.Join(st, " ") != strings.Join(prefix, " ") {
				c.Failf("after %s: connection %d with a limit of %d handled %v, sent %v", step, ci, l, st, sent[ci])
			}
		}
	}
	var ops []c10op
	for _, o := range k.Ops {
		n := o.More
		if o.Kind != "request" && o.Kind != "signal" && o.Kind != "release" {
			n = 0
		}
		for ; n >= 0; n-- {
			o.More = n
			ops = append(ops, o)
		}
	}
	for i, o := range ops {
		name := fmt.Sprintf("m%04d", i)
		switch o.Kind {
		case "request":
			sent[o.Conn] = append(sent[o.Conn], name)
			peers[o.Conn].send(frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(name)}.encode())
		case "signal":
			sent[o.Conn] = append(sent[o.Conn], name)
			peers[o.Conn].send(frame{Type: tSignal, Name: []byte(name), Payload: []byte{1}}.encode())
		case "heartbeat":
			peers[o.Conn].send(frame{Type: tHeartbeat}.encode())
		case "unexpected":
			// Ignored messages must not take handler slots away
			peers[o.Conn].send(unexpectedFrame(o.Pick).encode())
		case "restore", "closesession":
			// Answered immediately once there's a slot, which is given back
			f := k.Sess.restoreFrame(idOf(uint64(i)), o.Pick)
			if o.Kind == "closesession" {
				f = frame{Type: tCloseSession, ID: idOf(uint64(i))}
			}
			peers[o.Conn].send(f.encode())
		case "release":
			label := w.sched.Release(o.Pick)
			if label == "" {
				continue
			}
			var ci int
			fmt.Sscanf(label, "handler:c%d/", &ci)
			finished[ci]++
		}
		if o.More < 1 || (o.Kind == "release" && o.More < 20) {
			check(fmt.Sprintf("op %d (%s)", i, o.Kind))
		}
	}
	check("the operations")
	for i := 0; ; i++ {
		label := w.sched.Release(i)
		if label == "" {
			break
		}
		var ci int
		fmt.Sscanf(label, "handler:c%d/", &ci)
		finished[ci]++
		if n := w.sched.Count("handler", ""); n < 20 || n%16 == 0 {
			check("release")
		}
	}
	for ci := range k.Limits {
		if len(started[ci]) != len(sent[ci]) {
			c.Failf("connection %d: %d messages sent, %d handled", ci, len(sent[ci]), len(started[ci]))
		}
	}
	for ci, p := range peers {
		for i, o := range ops {
			if o.Conn != ci || (o.Kind != "request" && o.Kind != "restore" && o.Kind != "closesession") {
				continue
			}
			if l := p.replies(idOf(uint64(i))); len(l) != 1 || o.Kind == "request" && l[0].Type != tReply ||
				o.Kind != "request" && !k.Sess.answers(o.Kind == "restore", o.Pick, l[0]) {
				c.Failf("%s %d was replied to with %+v", o.Kind, i, l)
			}
		}
	}
	c.Nontrivial(saturated)
	c.Class("several connections", len(peers) > 1)
	c.Class("limit saturated", saturated)
	c.Class("sessions enabled", k.Sess > 0)
}
