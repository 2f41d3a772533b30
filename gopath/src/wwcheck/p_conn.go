package wwcheck

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/transport/memchan"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C11: a connection is closed once it's idle for the read timeout, never earlier

type c11 struct {
	Virtual bool
	Timeout time.Duration
	Conns   []c11conn
}

type c11conn struct {
	Limit int
	Steps []c11step
	// What happens at the end unless the case is run on a fake clock
	Expire string `json:",omitempty"` // the deadline is exceeded: idle, or busy handling a request
}

type c11step struct {
	Gap  time.Duration // since the previous message
	Kind string
	Busy time.Duration `json:",omitempty"` // time the handler takes
}

const c11slack = 20 * time.Millisecond

func init() {
	register("C11",
		"a connection sent at least two messages before it was closed for inactivity, or its deadlines were inspected for at least two messages",
		7500, 225000,
		func(t *rapid.T) (c c11) {
			c.Virtual = rapid.IntRange(0, 3).Draw(t, "virtual") != 0
			ms := time.Millisecond
			c.Timeout = rapid.OneOf(
				rapid.SampledFrom([]time.Duration{0, 500 * ms, 999 * ms, time.Second, 1001 * ms, 60 * time.Second,
					time.Hour, math.MaxUint32 * ms}),
				rapid.Map(rapid.Int64Range(1000, 200000), func(n int64) time.Duration {
					return time.Duration(n) * ms
				})).Draw(t, "timeout")
			eff := c.Timeout
			if eff < time.Second {
				eff = time.Minute
			}
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				cc := c11conn{Limit: rapid.SampledFrom([]int{-1, 0, 1, 3}).Draw(t, "limit")}
				if !c.Virtual {
					cc.Expire = rapid.SampledFrom([]string{"", "idle", "busy"}).Draw(t, "expire")
					if cc.Expire == "busy" && cc.Limit >= 0 {
						cc.Limit = 3
					}
				}
				m := rapid.IntRange(0, 6).Draw(t, "steps")
				for j := 0; j < m; j++ {
					s := c11step{Kind: rapid.SampledFrom([]string{"heartbeat", "signal", "request", "unexpected",
						"restore"}).Draw(t, "kind")}
					switch rapid.IntRange(0, 9).Draw(t, "gapMode") {
					case 0:
						s.Gap = eff + 2*c11slack
					case 1, 2, 3:
						s.Gap = eff - 2*c11slack
					case 4, 5:
						s.Gap = 0
					default:
						s.Gap = time.Duration(rapid.Int64Range(0, int64(eff-2*c11slack)).Draw(t, "gap"))
					}
					if rapid.Bool().Draw(t, "isBusy") {
						s.Busy = eff * time.Duration(rapid.IntRange(0, 3).Draw(t, "busy")) / 2
					}
					cc.Steps = append(cc.Steps, s)
				}
				c.Conns = append(c.Conns, cc)
			}
			return
		},
		runC11)
}

func (s c11step) frame(i int) []byte {
	id := idOf(uint64(i))
	switch s.Kind {
	case "signal":
		return frame{Type: tSignal, Name: []byte{byte(' ' + i)}, Payload: []byte{1}}.encode()
	case "request":
		return frame{Type: tRequest, ID: id, Name: []byte{byte(' ' + i)}, Payload: []byte{1}}.encode()
	case "unexpected":
		return frame{Type: tReply, ID: id}.encode()
	case "restore":
		return frame{Type: tRestore, ID: id, Payload: []byte("k")}.encode()
	}
	return frame{Type: tHeartbeat}.encode()
}

func runC11(c *Ctx, k c11) {
	eff := k.Timeout
	if eff < time.Second {
		eff = time.Minute
	}
	if k.Virtual {
		runC11virtual(c, k, eff)
		return
	}
	opt := k.Timeout
	if opt == 0 {
		opt = 1 // anything below a second stands for the default
	}
	w := newWorld(c, worldOpts{Sessions: wwr.Disabled, Timeout: opt})
	start := time.Now()
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		if string(m.Name()) == "busy" {
			w.sched.Point("handler", "busy")
		}
		return wwr.Payload{}, nil
	}
	w.sched.Enable("handler", true)
	for _, cc := range k.Conns {
		p := w.connect(cc.Limit)
		for i, s := range cc.Steps {
			p.send(s.frame(i))
			if i%2 == 0 {
				c.Settle()
			}
		}
		c.Settle()
		p.mu.Lock()
		reads := append([]readRec{}, p.reads...)
		p.mu.Unlock()
		if len(reads) != len(cc.Steps)+1 {
			c.Failf("%d messages were sent but the server tried to read %d times", len(cc.Steps), len(reads))
		}
		prev := start
		for i, r := range reads {
			if r.deadline.Before(prev.Add(eff)) || r.deadline.After(r.at.Add(eff)) {
				c.Failf("read %d: the deadline is %s after the end of the previous read and %s after the start of "+
					"this one, the read timeout is %s", i, r.deadline.Sub(prev), r.deadline.Sub(r.at), eff)
			}
			prev = r.ret
		}
		c.Nontrivial(len(cc.Steps) >= 2)
		if cc.Expire == "" {
			continue
		}
		// Being busy makes no difference
		busy := cc.Expire == "busy"
		if busy {
			p.send(frame{Type: tRequest, ID: idOf(1000), Name: []byte("busy")}.encode())
			c.Settle()
			if w.sched.Count("handler", "busy") != 1 {
				c.Failf("the request isn't handled")
			}
		}
		p.mu.Lock()
		n := len(p.reads)
		p.mu.Unlock()
		p.fault(errTimeout)
		c.Settle()
		what := fmt.Sprintf("the deadline of a connection (%s) was exceeded", cc.Expire)
		if got := w.impl.numDisconnected(p.id); got != 1 {
			c.Failf("%s but the application was told %d times", what, got)
		}
		if p.conn.IsActive() {
			c.Failf("%s but it's still active", what)
		}
		p.mu.Lock()
		tried := len(p.reads) - n
		p.mu.Unlock()
		if tried > 0 {
			c.Failf("%s but the server goes on reading", what)
		}
		w.sched.ReleaseLabel("handler", "busy")
		c.Settle()
		if !p.isClosed() {
			c.Failf("%s but its socket wasn't closed", what)
		}
		c.Class("deadline exceeded", true)
		c.Class("deadline exceeded while a request is handled", busy)
	}
	w.checkPanics()
	c.Class("deadlines", true)
}

// runC11virtual runs the case on a fake clock
func runC11virtual(c *Ctx, k c11, eff time.Duration) {
	var fail interface{}
	var dead interface{}
	nontrivial := false
	func() {
		defer func() { dead = recover() }()
		synctest.Test(c.T, func(*testing.T) {
			defer func() { fail = recover() }()
			nontrivial = c11bubble(c, k, eff)
		})
	}()
	if fail != nil {
		panic(fail)
	}
	if dead != nil {
		if _, ok := dead.(error); ok || !strings.Contains(fmt.Sprint(dead), "deadlock") {
			panic(dead)
		}
		c.Failf("goroutines are stuck after all connections were closed: %v", dead)
	}
	c.Nontrivial(nontrivial)
	c.Class("virtual time", true)
}

func c11bubble(c *Ctx, k c11, eff time.Duration) (nontrivial bool) {
	limits := make(chan int, len(k.Conns))
	tr := &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		return wwr.ConnectionOptions{ConcurrencyLimit: <-limits}
	}}
	type gone struct {
		at  time.Time
		err error
	}
	var mu sync.Mutex
	closed := map[int][]gone{}
	var impl implStub
	impl.conns = map[int]wwr.Connection{}
	impl.w = &world{c: c, tr: newFakeTransport(nil)}
	busy := func(id int, m wwr.Message) {
		i := int(m.Name()[0]) - ' '
		time.Sleep(k.Conns[id].Steps[i].Busy)
	}
	impl.onRequest = func(id int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		busy(id, m)
		return wwr.Payload{}, nil
	}
	impl.onSignal = func(id int, _ wwr.Connection, m wwr.Message) { busy(id, m) }
	impl.onDisconnected = func(id int, _ wwr.Connection) {
		mu.Lock()
		closed[id] = append(closed[id], gone{time.Now(), nil})
		mu.Unlock()
	}
	srv, err := wwr.NewServer(&impl, wwr.ServerOptions{
		Sessions: wwr.Disabled, WarnLog: discard, ErrorLog: discard, ReadTimeout: k.Timeout,
	}, tr)
	if err != nil {
		c.Failf("NewServer failed: %s", err)
	}
	defer func() {
		tr.Shutdown()
		time.Sleep(10 * eff)
		synctest.Wait()
	}()
	_ = srv
	expect := make([]time.Time, len(k.Conns))
	// Time during which the connection can't be read because the last message is being handled
	blocked := make([]time.Duration, len(k.Conns))
	errs := make([]string, len(k.Conns))
	var wg sync.WaitGroup
	var total time.Duration
	clients := make([]*memClient, len(k.Conns))
	for i, cc := range k.Conns {
		clients[i] = newMemClient(tr, i)
		limits <- cc.Limit
		if err := clients[i].sock.Dial(time.Time{}); err != nil {
			c.Failf("dial failed: %s", err)
		}
		clients[i].listen(8192)
		synctest.Wait()
		var d time.Duration
		for _, s := range cc.Steps {
			d += s.Gap + s.Busy
		}
		if d > total {
			total = d
		}
	}
	for i, cc := range k.Conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := time.Now()
			var slotEnds []time.Time
			for j, s := range cc.Steps {
				time.Sleep(s.Gap)
				if s.Gap > eff {
					break
				}
				if err := clients[i].write(s.frame(j)); err != nil {
					errs[i] = fmt.Sprintf("connection %d: message %d couldn't be sent %s after the previous one (read timeout %s): %s",
						i, j, s.Gap, eff, err)
					return
				}
				last = time.Now()
				blocked[i] = 0
				handled := s.Kind == "signal" || s.Kind == "request"
				switch {
				case s.Kind == "heartbeat" || cc.Limit < 0:
				case cc.Limit <= 1:
					if handled {
						blocked[i] = s.Busy
					}
				default:
					// No message is read until there's a slot for this one
					start := last
					if n := len(slotEnds); n >= cc.Limit && slotEnds[n-cc.Limit].After(start) {
						start = slotEnds[n-cc.Limit]
					}
					blocked[i] = start.Sub(last)
					if handled {
						slotEnds = append(slotEnds, start.Add(s.Busy))
						sort.Slice(slotEnds, func(a, b int) bool { return slotEnds[a].Before(slotEnds[b]) })
					}
				}
				if j >= 1 {
					mu.Lock()
					nontrivial = true
					mu.Unlock()
				}
			}
			expect[i] = last.Add(eff)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			c.Failf("%s", e)
		}
	}
	time.Sleep(2*eff + total)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	for i := range k.Conns {
		if len(closed[i]) != 1 {
			c.Failf("connection %d: OnClientDisconnected was invoked %d times after the connection was idle for more than %s",
				i, len(closed[i]), eff)
		}
		if d := closed[i][0].at.Sub(expect[i]); d < -c11slack || d > c11slack+blocked[i] {
			c.Failf("connection %d was closed %s after its read timeout (%s) elapsed", i, d, eff)
		}
		if clients[i].sock.IsConnected() || !clients[i].isDone() {
			c.Failf("connection %d is still connected on the client side", i)
		}
		if impl.conn(i).IsActive() {
			c.Failf("connection %d is still active", i)
		}
	}
	return
}

// ---------------------------------------------------------------------------------------------
// C12: malformed and unexpected messages affect nothing but the connection they were sent on

type c12 struct {
	Mem     bool
	Chunked bool
	Buf     uint32
	Busy    bool // handlers may still be running when further messages are sent
	Age     int  `json:",omitempty"`
	Sess    bool `json:",omitempty"` // sessions are enabled, each connection but the first has one
	Limits  []int
	Ops     []c12op
}

type c12op struct {
	Conn    int
	Data    Blob
	Park    bool `json:",omitempty"` // the handler doesn't return until it's released
	Release int  `json:",omitempty"` // releases a handler if > 0
}

// genRaw draws arbitrary, mostly almost valid messages
func genRaw(t *rapid.T, buf int) []byte {
	var f frame
	f.ID = idOf(uint64(rapid.IntRange(0, 300).Draw(t, "id")))
	f.Enc = genEnc(t)
	mode := rapid.IntRange(0, 9).Draw(t, "type")
	switch {
	case mode < 3:
		f.Type = byte(tRequest + f.Enc)
	case mode < 5:
		f.Type = byte(tSignal + f.Enc)
	case mode == 5:
		f.Type = tRestore
	case mode == 6:
		f.Type = rapid.SampledFrom([]byte{tHeartbeat, tCloseSession}).Draw(t, "t")
	default:
		f.Type = rapid.SampledFrom([]byte{tReplyError, tReplyShutdown, tReplyInternal, tReplyNotFound,
			tReplyMaxConns, tReplyDisabled, tSessCreated, tSessClosed, tAcceptConf,
			tReply, tReply + 1, tReply + 2}).Draw(t, "t")
		f.Enc = 0
		if f.Type >= tReply {
			f.Enc = int(f.Type - tReply)
		}
	}
	f.Name = genName(t, 0, 12, "name")
	f.Payload = evenIf(f.Enc == encUtf16, genBlob(t, 0, 12, "payload")).bytes()
	if rapid.IntRange(0, 5).Draw(t, "full") == 0 {
		f.Payload = evenIf(f.Enc == encUtf16, Blob{N: genFit(t, buf, 24, "n"), S: 1}).bytes()
	}
	b := f.encode()
	switch rapid.IntRange(0, 8).Draw(t, "mutate") {
	case 0:
		b = b[:rapid.IntRange(1, len(b)).Draw(t, "cut")]
	case 1:
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
	case 2:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "tail")...)
	case 3:
		b = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "random")
	case 4:
		if len(b) > 9 {
			b[9] = byte(len(b)) // around the length of the name
		}
	}
	return b
}

func init() {
	registerNoisy("C12",
		"at least one malformed message was sent after a message that was handled or ignored",
		4500, 135000,
		func(t *rapid.T) (c c12) {
			c.Mem = rapid.IntRange(0, 2).Draw(t, "mem") == 0
			c.Chunked = !c.Mem && rapid.Bool().Draw(t, "chunked")
			c.Buf = rapid.SampledFrom([]uint32{32, 64, 200}).Draw(t, "buf")
			c.Busy = rapid.IntRange(0, 2).Draw(t, "busy") == 0
			c.Sess = rapid.Bool().Draw(t, "sess")
			if c.Sess {
				c.Buf = 200 // sessions must fit in
			}
			c.Age = genAge(t)
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				l := rapid.SampledFrom([]int{-1, 0, 1, 2}).Draw(t, "limit")
				if c.Busy {
					l = []int{-1, 100}[(l+4)%2]
				}
				c.Limits = append(c.Limits, l)
			}
			m := rapid.IntRange(1, 12).Draw(t, "ops")
			for i := 0; i < m; i++ {
				b := genRaw(t, int(c.Buf))
				if c.Mem && len(b) > int(c.Buf) {
					b = b[:c.Buf]
				}
				o := c12op{Conn: rapid.IntRange(0, n-1).Draw(t, "conn"), Data: Blob{B: b}}
				if c.Busy {
					o.Park = rapid.Bool().Draw(t, "park")
					if rapid.IntRange(0, 5).Draw(t, "isRelease") == 0 {
						o = c12op{Release: 1 + rapid.IntRange(0, 5).Draw(t, "release")}
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return
		},
		runC12)
}

// wire abstracts from the transport
type wire interface {
	put(b []byte)
	got() [][]byte
	gone() bool // terminated by the server
}

type fakeWire struct{ *peer }

func (f fakeWire) put(b []byte) { f.send(b) }
func (f fakeWire) gone() bool   { return f.isClosed() }
func (f fakeWire) got() (l [][]byte) {
	for _, x := range f.received() {
		l = append(l, x.data)
	}
	return
}

type memWire struct {
	*memClient
	c *Ctx
}

func (f memWire) put(b []byte)  { go f.write(b) }
func (f memWire) gone() bool    { return !f.sock.IsConnected() }
func (f memWire) got() [][]byte { return f.received() }

// memWorld is a world using the memchan transport
type memWorld struct {
	*world
	mtr     *memchan.Transport
	clients []*memClient
	limits  []int
	buf     uint32
}

func newMemWorld(c *Ctx, o worldOpts, gates ...string) *memWorld {
	m := &memWorld{mtr: &memchan.Transport{}, buf: o.BufSize}
	next := 0
	m.mtr.OnBeforeCreation = func() wwr.ConnectionOptions {
		next++
		return wwr.ConnectionOptions{ConcurrencyLimit: m.limits[next-1]}
	}
	o.Transport = m.mtr
	m.world = newWorld(c, o, gates...)
	c.Cleanup(func() { m.mtr.Shutdown() })
	return m
}

// dial establishes a connection and waits until the server is ready
func (m *memWorld) dial(limit int) *memClient {
	m.limits = append(m.limits, limit)
	cl := newMemClient(m.mtr, len(m.clients))
	m.clients = append(m.clients, cl)
	if err := cl.sock.Dial(time.Time{}); err != nil {
		m.c.Failf("dial failed: %s", err)
	}
	cl.listen(m.buf)
	if !m.c.Await(func() bool { return m.impl.conn(cl.id) != nil && len(cl.received()) > 0 }) {
		m.c.Failf("the connection wasn't established")
	}
	return cl
}

func runC12(c *Ctx, k c12) {
	var w *world
	connect := func(limit int) wire { return nil }
	o := worldOpts{Sessions: wwr.Disabled, BufSize: k.Buf, Chunked: k.Chunked, Age: k.Age}
	if k.Sess {
		o.Sessions = wwr.Enabled
	}
	if k.Mem {
		mw := newMemWorld(c, o, "handler")
		w = mw.world
		connect = func(l int) wire { return memWire{mw.dial(l), c} }
	} else {
		w = newWorld(c, o, "handler")
		connect = func(l int) wire { return fakeWire{w.connect(l)} }
	}
	var mu sync.Mutex
	handled := map[int][]string{}
	cur := -1 // index of the current operation
	handle := func(id int, m wwr.Message) {
		mu.Lock()
		handled[id] = append(handled[id], fmt.Sprintf("%x/%x/%d", m.Name(), m.Payload(), m.PayloadEncoding()))
		op := cur
		mu.Unlock()
		if op >= 0 && id < len(k.Limits) && k.Ops[op].Park {
			w.sched.Point("handler", fmt.Sprintf("c%d/%02d", id, op))
		}
	}
	w.impl.onRequest = func(id int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(id, m)
		return wwr.Payload{Data: []byte{42}}, nil
	}
	w.impl.onSignal = func(id int, _ wwr.Connection, m wwr.Message) { handle(id, m) }
	var wires []wire
	for _, l := range k.Limits {
		wires = append(wires, connect(l))
	}
	witness := connect(1)
	sessions := map[int]string{}
	if k.Sess {
		for id := 1; id <= len(k.Limits); id++ { // including the witness
			t := goTask(func() error { return w.impl.conn(id).CreateSession(nil) })
			c.Settle()
			if done, err := t.isDone(), t.err; !done || err != nil {
				c.Failf("connection %d: CreateSession didn't succeed: %v", id, err)
			}
			sessions[id] = w.impl.conn(id).SessionKey()
		}
	}
	dead := map[int]bool{}        // the server gave up on the connection
	running := map[int][]string{} // labels of handlers still running
	checkSessions := func(after string) {
		for id := 0; id <= len(k.Limits) && k.Sess; id++ {
			if dead[id] && len(running[id]) > 0 {
				continue // keeps its session until it's closed
			}
			if dead[id] {
				sessions[id] = ""
			}
			if got := w.impl.conn(id).SessionKey(); got != sessions[id] {
				c.Failf("%s: connection %d has got session %q instead of %q", after, id, got, sessions[id])
			}
			n := -1
			if sessions[id] != "" {
				n = 1
			}
			if got := w.srv.SessionConnectionsNum(sessions[id]); got != n && sessions[id] != "" {
				c.Failf("%s: session %q has got %d connections instead of %d", after, sessions[id], got, n)
			}
		}
	}
	nWit := uint64(1 << 40)
	checkWitness := func(after string) {
		nWit++
		before := len(witness.got())
		witness.put(frame{Type: tRequest, ID: idOf(nWit), Name: []byte("w")}.encode())
		c.Settle()
		got := witness.got()
		want := frame{Type: tReply, ID: idOf(nWit), Payload: []byte{42}}.encode()
		if len(got) != before+1 || !bytes.Equal(got[before], want) {
			c.Failf("after %s: another connection isn't served any more, it received %x", after, got[before:])
		}
	}
	pending := map[string][][]byte{} // replies due once the handler is released
	checkDead := func(ci int, step string) {
		if disc := w.impl.numDisconnected(ci); disc > 1 || (disc != 1 && len(running[ci]) < 1) {
			c.Failf("%s: OnClientDisconnected was invoked %d times", step, disc)
		}
		if len(running[ci]) < 1 && !wires[ci].gone() {
			c.Failf("%s: the connection is still open", step)
		}
		if w.impl.conn(ci).IsActive() {
			c.Failf("%s: the closed connection is still active", step)
		}
	}
	release := func(n int, step string) bool {
		parked := w.sched.Parked()
		if len(parked) < 1 {
			return false
		}
		label := strings.TrimPrefix(parked[n%len(parked)], "handler:")
		var ci int
		fmt.Sscanf(label, "c%d/", &ci)
		for i, l := range running[ci] {
			if l == label {
				running[ci] = append(running[ci][:i:i], running[ci][i+1:]...)
			}
		}
		before := len(wires[ci].got())
		w.sched.ReleaseLabel("handler", label)
		c.Settle()
		w.checkPanics()
		got := wires[ci].got()[before:]
		if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", pending[label]) && (!dead[ci] || len(got) > 0) {
			c.Failf("%s: the handler %s returned, expected replies %x, got %x", step, label, pending[label], got)
		}
		if dead[ci] {
			checkDead(ci, step)
		}
		return true
	}
	okBefore, malformed, wasBusy := false, false, false
	for i, op := range k.Ops {
		mu.Lock()
		cur = i
		mu.Unlock()
		if op.Release > 0 {
			release(op.Release-1, fmt.Sprintf("op %d", i))
			continue
		}
		wr := wires[op.Conn]
		if dead[op.Conn] && wr.gone() {
			continue
		}
		b := op.Data.bytes()
		f, v := decode(b)
		if len(b) > int(k.Buf) {
			v = invalid
		}
		framesBefore, handledBefore := len(wr.got()), len(handled[op.Conn])
		wr.put(b)
		c.Settle()
		w.checkPanics()
		step := fmt.Sprintf("op %d: message %x", i, b)
		newFrames := wr.got()[framesBefore:]
		mu.Lock()
		newHandled := append([]string{}, handled[op.Conn][handledBefore:]...)
		mu.Unlock()
		wasDead := dead[op.Conn]
		isGone := !w.impl.conn(op.Conn).IsActive()
		if isGone {
			dead[op.Conn] = true
			wasBusy = wasBusy || len(running[op.Conn]) > 0
			checkDead(op.Conn, step)
			if len(newFrames)+len(newHandled) > 0 {
				c.Failf("%s: the connection was closed, nevertheless the message was handled (%v) or replied to (%x)",
					step, newHandled, newFrames)
			}
		} else if disc := w.impl.numDisconnected(op.Conn); disc != 0 || wr.gone() {
			c.Failf("%s: the connection is active but was closed (%t) or reported as such (%d)", step, wr.gone(), disc)
		}
		switch {
		case wasDead:
		case v == invalid:
			malformed = malformed || okBefore
			if !isGone {
				c.Failf("%s is malformed but the connection wasn't closed", step)
			}
		case v == unspecified && isGone:
		case isGone:
			c.Failf("%s is valid but the connection was closed", step)
		default:
			okBefore = true
			wantHandled, wantFrames := []string(nil), [][]byte(nil)
			label := fmt.Sprintf("c%d/%02d", op.Conn, i)
			if isRequest(f.Type) || isSignal(f.Type) {
				wantHandled = []string{fmt.Sprintf("%x/%x/%d", f.Name, f.Payload, f.Enc)}
				if op.Park {
					running[op.Conn] = append(running[op.Conn], label)
				}
			}
			if isRequest(f.Type) {
				l := [][]byte{frame{Type: tReply, ID: f.ID, Payload: []byte{42}}.encode()}
				if op.Park {
					pending[label] = l
				} else {
					wantFrames = l
				}
			}
			switch {
			case f.Type != tRestore && f.Type != tCloseSession:
			case !k.Sess:
				wantFrames = [][]byte{frame{Type: tReplyDisabled, ID: f.ID}.encode()}
			case f.Type == tRestore: // There's no such session
				wantFrames = [][]byte{frame{Type: tReplyNotFound, ID: f.ID}.encode()}
			default:
				wantFrames = [][]byte{frame{Type: tReply, ID: f.ID}.encode()}
				sessions[op.Conn] = ""
			}
			if fmt.Sprint(wantHandled) != fmt.Sprint(newHandled) {
				c.Failf("%s: expected the handlers to be given %v, got %v", step, wantHandled, newHandled)
			}
			if fmt.Sprintf("%x", wantFrames) != fmt.Sprintf("%x", newFrames) {
				c.Failf("%s: expected replies %x, got %x", step, wantFrames, newFrames)
			}
		}
		checkSessions(step)
		if i%4 == 3 {
			checkWitness(step)
		}
	}
	for release(0, "the end") {
	}
	checkWitness("all messages")
	for ci, wr := range wires {
		if !dead[ci] && wr.gone() {
			c.Failf("connection %d was closed later on", ci)
		}
	}
	// The server still accepts connections
	witness = connect(2)
	checkWitness("a new connection")
	c.Nontrivial(malformed)
	c.Class("memchan", k.Mem)
	c.Class("sessions", k.Sess)
	c.Class("malformed", len(dead) > 0)
	c.Class("closed while handlers were running", wasBusy)
}

// ---------------------------------------------------------------------------------------------
// C13: closing a connection lets running handlers finish and happens exactly once

type c13 struct {
	Limit int
	Ops   []c13op
	Race  *c13race      `json:",omitempty"` // at full speed instead
	Sess  sessMode      `json:",omitempty"`
	Age   int           `json:",omitempty"`
	Crowd *handlerCrowd `json:",omitempty"`
}

type c13race struct {
	Rounds, Handlers, Closers int
	Drop                      bool
	Late                      int // messages following at the same time
	Spin                      []int
}

type c13op struct {
	Kind string // request, signal, close, closes, drop, error, release, releaseClose, heartbeat
	Pick int
}

func init() {
	registerNoisy("C13",
		"the connection was closed or lost while at least one handler was running",
		7500, 225000,
		func(t *rapid.T) (c c13) {
			if genRarely(t, "isCrowd") {
				c.Crowd = genHandlerCrowd(t, "close", "close", "drop")
				return
			}
			c.Limit = rapid.SampledFrom([]int{-1, 0, 1, 2, 3}).Draw(t, "limit")
			c.Age = genAge(t)
			if rapid.IntRange(0, 9).Draw(t, "race") == 9 {
				r := &c13race{
					Rounds:   20,
					Handlers: rapid.IntRange(1, 4).Draw(t, "handlers"),
					Closers:  rapid.IntRange(0, 3).Draw(t, "closers"),
					Late:     rapid.IntRange(0, 2).Draw(t, "late"),
				}
				r.Drop = r.Closers == 0 || rapid.IntRange(0, 3).Draw(t, "drop") == 3
				r.Spin = genSpin(t)
				c.Race = r
				return
			}
			m := rapid.IntRange(2, 14).Draw(t, "ops")
			kinds := []string{"request", "request", "signal", "request", "release", "close", "closes",
				"releaseClose", "heartbeat", "unexpected", "drop", "error", "fault", "restore", "closesession"}
			c.Sess = genSessMode(t)
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, c13op{
					Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
					Pick: rapid.IntRange(0, 5).Draw(t, "pick"),
				})
			}
			return
		},
		runC13)
}

// genSpin generates delays of concurrent activities, they're used in turn
func genSpin(t *rapid.T) []int {
	max := rapid.SampledFrom([]int{0, 10, 100, 1000, 5000}).Draw(t, "maxspin")
	return rapid.SliceOfN(rapid.IntRange(0, max), 7, 11).Draw(t, "spin")
}

// spinner releases several goroutines at once, each after a delay of its own
type spinner struct {
	start  chan struct{}
	spin   []int
	n      int
	sink   uint32
	warmup sync.WaitGroup
}

func newSpinner(spin []int, round int) *spinner {
	return &spinner{start: make(chan struct{}), spin: spin, n: round * 3}
}

// delay returns a function that blocks until the start and spins for a moment
func (s *spinner) delay() func() {
	d := s.spin[s.n%len(s.spin)]
	s.n++
	return func() {
		<-s.start
		for i := 0; i < d; i++ {
			atomic.AddUint32(&s.sink, 1)
		}
	}
}

func (s *spinner) run(f func()) *task {
	d := s.delay()
	return goTask(func() error { d(); f(); return nil })
}

// runC13race closes connections at the very moment their handlers return
func runC13race(c *Ctx, k c13) {
	w := newWorld(c, worldOpts{Sessions: wwr.Disabled, Age: k.Age / 10})
	var mu sync.Mutex
	begun, ended := map[string]int{}, map[string]int{}
	var waits map[string]func()
	handle := func(m wwr.Message) {
		name := string(m.Name())
		mu.Lock()
		begun[name]++
		wait := waits[name]
		mu.Unlock()
		if wait != nil {
			wait()
		}
		at := w.tr.next()
		mu.Lock()
		ended[name] = at
		mu.Unlock()
	}
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(m)
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.impl.onSignal = func(_ int, _ wwr.Connection, m wwr.Message) { handle(m) }
	r := k.Race
	n := r.Handlers
	if k.Limit >= 0 && n > max(k.Limit, 1) {
		n = max(k.Limit, 1)
	}
	for round := 0; round < r.Rounds; round++ {
		sp := newSpinner(r.Spin, round)
		p := w.connect(k.Limit)
		mu.Lock()
		begun, ended, waits = map[string]int{}, map[string]int{}, map[string]func(){}
		for i := 0; i < n; i++ {
			waits[fmt.Sprintf("m%d", i)] = sp.delay()
		}
		mu.Unlock()
		msg := func(i int) []byte {
			f := frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(fmt.Sprintf("m%d", i))}
			if (i+round)%4 == 3 {
				f = frame{Type: tSignal, Name: f.Name}
			}
			return f.encode()
		}
		for i := 0; i < n; i++ {
			p.send(msg(i))
		}
		all := c.Await(func() bool { mu.Lock(); defer mu.Unlock(); return len(begun) == n })
		if !all {
			c.Failf("round %d: %d of %d messages are handled (limit %d)", round, len(begun), n, k.Limit)
		}
		var ts []*task
		for i := 0; i < r.Closers; i++ {
			ts = append(ts, sp.run(func() { p.conn.Close() }))
		}
		if r.Drop {
			ts = append(ts, sp.run(func() { p.drop(errAbnormal) }))
		}
		for i := 0; i < r.Late; i++ {
			i := i
			ts = append(ts, sp.run(func() { p.send(msg(n + i)) }))
		}
		c.Resync(round)
		close(sp.start)
		c.Await(func() bool {
			mu.Lock()
			defer mu.Unlock()
			return w.impl.numDisconnected(p.id) > 0 && doneTasks(ts) == len(ts) && len(begun) == len(ended)
		})
		step := fmt.Sprintf("round %d", round)
		w.checkPanics()
		c.Await(func() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.served && p.closeCalls > 0 })
		p.mu.Lock()
		closeCalls, closedAt, served := p.closeCalls, p.closedAt, p.served
		p.mu.Unlock()
		for _, t := range ts {
			if !t.isDone() {
				c.Failf("%s: Close never returns", step)
			}
			if t.pan != nil {
				c.Failf("%s: Close panicked: %v", step, t.pan)
			}
		}
		if d := w.impl.numDisconnected(p.id); d != 1 || !served {
			c.Failf("%s: OnClientDisconnected was invoked %d times, serving it ended: %t", step, d, served)
		}
		if closeCalls != 1 {
			c.Failf("%s: the socket was closed %d times", step, closeCalls)
		}
		if p.conn.IsActive() {
			c.Failf("%s: the closed connection is active", step)
		}
		mu.Lock()
		for name, b := range begun {
			var i int
			fmt.Sscanf(name, "m%d", &i)
			switch l := p.replies(idOf(uint64(i))); {
			case b != 1 || ended[name] == 0:
				c.Failf("%s: message %s was handled %d times, until the end: %t", step, name, b, ended[name] > 0)
			case r.Drop:
			case ended[name] > closedAt:
				c.Failf("%s: the socket was closed before the handler of %s returned", step, name)
			case (i+round)%4 != 3 && (len(l) != 1 || l[0].Type != tReply):
				c.Failf("%s: the reply of request %s that was handled until the end is %+v", step, name, l)
			}
		}
		mu.Unlock()
	}
	w.checkWriters()
	c.Nontrivial(true)
	c.Class("at full speed", true)
}

func runC13(c *Ctx, k c13) {
	if k.Race != nil {
		runC13race(c, k)
		return
	}
	if k.Crowd != nil {
		runHandlerCrowd(c, *k.Crowd)
		return
	}
	w := newWorld(c, k.Sess.opts(worldOpts{Age: k.Age}), "handler")
	var mu sync.Mutex
	handledAt := map[string]int{}
	closeIn := map[string]bool{}
	var conn wwr.Connection
	handle := func(m wwr.Message) {
		name := string(m.Name())
		mu.Lock()
		handledAt[name]++
		mu.Unlock()
		w.sched.Point("handler", name)
		mu.Lock()
		cl := closeIn[name]
		mu.Unlock()
		if cl {
			conn.Close()
		}
	}
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(m)
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.impl.onSignal = func(_ int, _ wwr.Connection, m wwr.Message) { handle(m) }
	p := w.connect(k.Limit)
	conn = p.conn
	k.Sess.prepareOutcomes(w)
	type special struct {
		id      [8]byte
		restore bool
		pick    int
		late    bool
	}
	var specials []special

	closing, lost, faulted := false, false, false
	var lostErr sockErr
	late := map[string]bool{} // sent after the closure
	var begun map[string]bool // handlers that were begun before the closure
	queued, refused := false, false
	sent := map[string]bool{} // name -> is request
	released := map[string]bool{}
	busyClosure := false
	close := func() {
		if closing {
			return
		}
		closing = true
		mu.Lock()
		begun = map[string]bool{}
		for name := range handledAt {
			begun[name] = true
		}
		queued = len(sent) > len(begun)
		mu.Unlock()
	}
	check := func(step string) {
		c.Settle()
		w.checkPanics()
		running := w.sched.Count("handler", "")
		p.mu.Lock()
		closeCalls := p.closeCalls
		p.mu.Unlock()
		if !closing && p.isFaulted() {
			// The server couldn't read from the connection and closed it therefore
			close()
			busyClosure = busyClosure || running > 0
		}
		noticed := closing || (lost && w.impl.numDisconnected(0) > 0)
		if (closing || noticed) && conn.IsActive() {
			c.Failf("%s: the connection is closed but still active", step)
		}
		if !closing && !lost && !conn.IsActive() {
			c.Failf("%s: the connection is open but not active", step)
		}
		if running > 0 && closeCalls > 0 {
			c.Failf("%s: the socket was closed while %d handlers are running", step, running)
		}
		if (closing || lost) && running == 0 && closeCalls == 0 {
			c.Failf("%s: the socket is still open although the connection was closed and no handler is running", step)
		}
		if closeCalls > 1 {
			c.Failf("%s: the socket was closed %d times", step, closeCalls)
		}
		if !closing && !lost && closeCalls > 0 {
			c.Failf("%s: the socket was closed for no reason", step)
		}
		disc := w.impl.numDisconnected(0)
		switch {
		case disc > 1:
			c.Failf("%s: OnClientDisconnected was invoked %d times", step, disc)
		case disc == 1 && !p.isClosed() && !p.isFaulted():
			c.Failf("%s: OnClientDisconnected was invoked before the connection was closed", step)
		case disc == 0 && p.isFaulted():
			c.Failf("%s: OnClientDisconnected wasn't invoked though reading from the connection failed", step)
		case disc == 0 && p.isClosed() && running == 0:
			c.Failf("%s: OnClientDisconnected wasn't invoked", step)
		}
		mu.Lock()
		defer mu.Unlock()
		for name, isReq := range sent {
			n := handledAt[name]
			if n > 1 {
				c.Failf("%s: message %s was handled %d times", step, name, n)
			}
			if late[name] && n > 0 {
				c.Failf("%s: message %s was handled though it was sent after the connection was closed", step, name)
			}
			if begun != nil && !begun[name] && n > 0 {
				c.Failf("%s: the handler of message %s was begun after the connection was closed", step, name)
			}
			refused = refused || queued && begun != nil && !late[name] && n == 0
			var i uint64
			fmt.Sscanf(name, "m%d", &i)
			l := p.replies(idOf(i))
			if !isReq {
				if len(l) > 0 {
					c.Failf("%s: signal %s was replied to", step, name)
				}
				continue
			}
			switch {
			case len(l) > 1:
				c.Failf("%s: request %s was replied to %d times", step, name, len(l))
			case n == 1 && released[name] && !lost && (len(l) != 1 || l[0].Type != tReply ||
				string(l[0].Payload) != "done"):
				c.Failf("%s: the reply of request %s that was handled until the end is %+v", step, name, l)
			case n == 1 && !released[name] && len(l) > 0:
				c.Failf("%s: request %s was replied to while it's being handled: %+v", step, name, l)
			case n == 0 && len(l) == 1 && l[0].Type != tReplyShutdown:
				c.Failf("%s: unhandled request %s was replied to with %+v", step, name, l)
			case n == 0 && len(l) == 1 && !closing:
				c.Failf("%s: request %s was refused on an open connection", step, name)
			case n == 0 && len(l) == 0 && p.isReading() && !p.isClosed() && p.pendingIn() == 0:
				c.Failf("%s: request %s was neither handled nor refused", step, name)
			}
		}
	}
	checkMessages := check
	check = func(step string) {
		checkMessages(step)
		for _, s := range specials {
			l := p.replies(s.id)
			switch {
			case len(l) > 1:
				c.Failf("%s: special request %x was replied to %d times", step, s.id, len(l))
			case len(l) == 1 && l[0].Type == tReplyShutdown && closing:
			case len(l) == 1 && (s.late || !k.Sess.answers(s.restore, s.pick, l[0])):
				c.Failf("%s: special request %x (sent after the closure: %t) was replied to with %+v", step, s.id, s.late, l)
			case len(l) == 0 && p.isReading() && !p.isClosed() && p.pendingIn() == 0:
				c.Failf("%s: special request %x wasn't replied to", step, s.id)
			}
		}
	}
	for i, o := range k.Ops {
		name := fmt.Sprintf("m%d", i)
		step := fmt.Sprintf("op %d (%s)", i, o.Kind)
		running := w.sched.Count("handler", "")
		switch o.Kind {
		case "request", "signal":
			f := frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(name)}
			if o.Kind == "signal" {
				f = frame{Type: tSignal, Name: []byte(name), Payload: []byte{1}}
			}
			if !lost {
				sent[name] = o.Kind == "request"
				late[name] = closing
				p.send(f.encode())
			}
		case "restore", "closesession":
			if lost {
				continue
			}
			f := k.Sess.restoreFrame(idOf(uint64(i)), o.Pick)
			if o.Kind == "closesession" {
				f = frame{Type: tCloseSession, ID: f.ID}
			}
			specials = append(specials, special{f.ID, o.Kind == "restore", o.Pick, closing})
			p.send(f.encode())
		case "heartbeat":
			p.send(frame{Type: tHeartbeat}.encode())
		case "unexpected":
			p.send(unexpectedFrame(o.Pick).encode())
		case "close", "closes":
			n := 1
			if o.Kind == "closes" {
				n = 3
			}
			var ts []*task
			close()
			busyClosure = busyClosure || running > 0
			for j := 0; j < n; j++ {
				ts = append(ts, goTask(func() error { conn.Close(); return nil }))
			}
			c.Settle()
			for _, t := range ts {
				if !t.isDone() {
					c.Failf("%s: Close blocks while handlers are running", step)
				}
				if t.pan != nil {
					c.Failf("%s: Close panicked: %v", step, t.pan)
				}
			}
		case "fault":
			if !lost && !p.isClosed() && !faulted {
				faulted = true
				p.fault(errTimeout)
			}
		case "drop", "error":
			if !lost && !p.isClosed() {
				lost = true
				busyClosure = busyClosure || running > 0
				lostErr = errClosed
				if o.Kind == "error" {
					lostErr = errAbnormal
				}
				p.drop(lostErr)
			}
		case "release", "releaseClose":
			l := w.sched.Parked()
			if len(l) < 1 {
				continue
			}
			n := strings.TrimPrefix(l[o.Pick%len(l)], "handler:")
			if o.Kind == "releaseClose" {
				close()
				busyClosure = true
			}
			mu.Lock()
			if o.Kind == "releaseClose" {
				closeIn[n] = true
			}
			released[n] = true
			mu.Unlock()
			w.sched.ReleaseLabel("handler", n)
		}
		check(step)
	}
	if !closing && !lost {
		close()
		conn.Close()
		check("final closure")
	}
	for {
		l := w.sched.Parked()
		if len(l) < 1 {
			break
		}
		n := strings.TrimPrefix(l[0], "handler:")
		mu.Lock()
		released[n] = true
		mu.Unlock()
		w.sched.ReleaseLabel("handler", n)
		check("release")
	}
	w.impl.mu.Lock()
	for _, d := range w.impl.disconnected {
		if d.active {
			w.impl.mu.Unlock()
			c.Failf("the connection was still active when OnClientDisconnected was invoked")
		}
		p.mu.Lock()
		cause := *p.closed
		if p.faulted {
			cause = errTimeout
		}
		p.mu.Unlock()
		if d.err != error(cause) || (lost && !closing && !faulted && cause != lostErr) {
			w.impl.mu.Unlock()
			c.Failf("OnClientDisconnected was given %v as the reason instead of %v", d.err, cause)
		}
	}
	w.impl.mu.Unlock()
	if p.conn.IsActive() {
		c.Failf("a closed connection is active")
	}
	w.checkWriters()
	c.Nontrivial(busyClosure)
	c.Class("lost", lost)
	c.Class("read error", p.isFaulted())
	c.Class("sessions enabled", k.Sess > 0)
	c.Class("limited", k.Limit > 1)
	c.Class("message waiting for a slot when the connection was closed", refused)
}

// doneTasks returns the number of tasks that are done
func doneTasks(ts []*task) (n int) {
	for _, t := range ts {
		if t.isDone() {
			n++
		}
	}
	return
}

// ---------------------------------------------------------------------------------------------
// C14: shutting down lets running handlers finish and refuses everything else

type c14 struct {
	Limits []int
	Ops    []c14op
	Race   *c14race      `json:",omitempty"` // at full speed instead
	Slow   bool          // shutting down the transport takes until it's released
	Fails  bool          `json:",omitempty"` // the transport fails to shut down properly
	Sess   sessMode      `json:",omitempty"`
	Age    int           `json:",omitempty"`
	Crowd  *handlerCrowd `json:",omitempty"`
}

type c14race struct {
	Rounds, Messages, Shutdowns int
	Trickle                     bool // the messages arrive one after another rather than all at once
	Closures                    int  `json:",omitempty"` // the number of connections the server closes meanwhile
	Spin                        []int
}

type c14op struct {
	Kind string
	Conn int
	Pick int
}

func init() {
	registerNoisy("C14",
		"Shutdown was called while handlers were running and messages were sent afterwards",
		6000, 180000,
		func(t *rapid.T) (c c14) {
			if genRarely(t, "isCrowd") {
				c.Crowd = genHandlerCrowd(t, "shutdown")
				return
			}
			c.Age = genAge(t)
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 1, 2, 3}).Draw(t, "limit"))
			}
			if rapid.IntRange(0, 9).Draw(t, "race") == 9 {
				c.Race = &c14race{
					Rounds:    20,
					Messages:  rapid.IntRange(1, 30).Draw(t, "messages"),
					Shutdowns: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "shutdowns"),
					Trickle:   rapid.Bool().Draw(t, "trickle"),
					Closures:  rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "closures"),
					Spin:      genSpin(t),
				}
				if c.Race.Closures > 0 && rapid.Bool().Draw(t, "few") {
					c.Race.Messages = rapid.IntRange(1, 3).Draw(t, "fewMessages")
				}
				return
			}
			m := rapid.IntRange(2, 18).Draw(t, "ops")
			kinds := []string{"request", "request", "request", "signal", "signal", "release", "release",
				"shutdown", "restore", "closesession", "heartbeat", "unexpected", "connclose", "drop"}
			c.Slow = rapid.Bool().Draw(t, "slow")
			c.Sess = genSessMode(t)
			c.Fails = rapid.IntRange(0, 4).Draw(t, "fails") == 3
			// Most histories shut down amid of messages being handled
			at := rapid.IntRange(0, m).Draw(t, "shutdownAt")
			for i := 0; i < m; i++ {
				l := kinds
				if i < at && rapid.Bool().Draw(t, "early") {
					l = kinds[:5]
				}
				o := c14op{
					Kind: rapid.SampledFrom(l).Draw(t, "kind"),
					Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
					Pick: rapid.IntRange(0, 5).Draw(t, "pick"),
				}
				if i == at && i > 0 {
					o.Kind = "shutdown"
				}
				c.Ops = append(c.Ops, o)
			}
			return
		},
		runC14)
}

// runC14race shuts the server down at the very moment messages arrive
func runC14race(c *Ctx, k c14) {
	r := k.Race
	for round := 0; round < r.Rounds; round++ {
		runC14round(c, k, round)
	}
	c.Nontrivial(true)
	c.Class("at full speed", true)
	c.Class("at full speed, closing connections", r.Closures > 0)
}

func runC14round(c *Ctx, k c14, round int) {
	r := k.Race
	w := newWorld(c, worldOpts{Sessions: wwr.Disabled, NoTeardown: true, Age: k.Age / 10})
	var mu sync.Mutex
	var running, after, early int32
	var down int32 // 1 as soon as the transport is shut down
	var sink uint32
	begun := map[string]int{}
	var bad []string
	handle := func(m wwr.Message) {
		name := string(m.Name())
		atomic.AddInt32(&running, 1)
		if atomic.LoadInt32(&down) != 0 {
			atomic.AddInt32(&after, 1)
		}
		mu.Lock()
		begun[name]++
		d := r.Spin[len(begun)%len(r.Spin)]
		mu.Unlock()
		for i := 0; i < d; i++ {
			atomic.AddUint32(&sink, 1)
		}
		atomic.AddInt32(&running, -1)
	}
	w.tr.onShutdown = func() {
		atomic.StoreInt32(&down, 1)
		if atomic.LoadInt32(&running) != 0 {
			atomic.AddInt32(&early, 1)
		}
	}
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(m)
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.impl.onSignal = func(_ int, _ wwr.Connection, m wwr.Message) { handle(m) }
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	run := goTask(w.srv.Run)
	sp := newSpinner(r.Spin, round)
	var ts []*task
	isSig := func(i int) bool { return (i+round)%3 == 1 }
	for ci, p := range peers {
		ci, p := ci, p
		ts = append(ts, sp.run(func() {
			for i := 0; i < r.Messages; i++ {
				f := frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(fmt.Sprintf("c%d/m%d", ci, i))}
				if isSig(i) {
					f = frame{Type: tSignal, Name: f.Name}
				}
				p.send(f.encode())
				if r.Trickle {
					for j := 0; j < r.Spin[i%len(r.Spin)]; j++ {
						atomic.AddUint32(&sink, 1)
					}
				}
			}
		}))
	}
	for i := 0; i < r.Shutdowns; i++ {
		d := r.Spin[(i+round)%len(r.Spin)]
		ts = append(ts, sp.run(func() {
			for i := 0; i < 3*d; i++ {
				atomic.AddUint32(&sink, 1)
			}
			if err := w.srv.Shutdown(); err != nil {
				mu.Lock()
				bad = append(bad, fmt.Sprintf("Shutdown failed: %s", err))
				mu.Unlock()
			}
			if n := atomic.LoadInt32(&running); n != 0 {
				mu.Lock()
				bad = append(bad, fmt.Sprintf("Shutdown returned while %d handlers are running", n))
				mu.Unlock()
			}
		}))
	}
	for i := 0; i < r.Closures; i++ {
		d := r.Spin[(i+2*round+1)%len(r.Spin)]
		p := peers[i%len(peers)]
		ts = append(ts, sp.run(func() {
			for i := 0; i < 3*d; i++ {
				atomic.AddUint32(&sink, 1)
			}
			p.conn.Close()
		}))
	}
	c.Resync(round)
	close(sp.start)
	step := fmt.Sprintf("round %d", round)
	c.Await(func() bool { return doneTasks(ts) == len(ts) && run.isDone() })
	for _, t := range ts {
		if !t.isDone() {
			c.Failf("%s: Shutdown never returns", step)
		}
		if t.pan != nil {
			c.Failf("%s: panic: %v", step, t.pan)
		}
	}
	if !run.isDone() {
		c.Failf("%s: Run never returns", step)
	}
	served := func() bool {
		for _, p := range peers {
			p.mu.Lock()
			ok := p.served
			p.mu.Unlock()
			if !ok {
				return false
			}
		}
		return true
	}
	if !c.Await(served) {
		c.Failf("%s: serving a connection doesn't end after the server was shut down", step)
	}
	w.checkPanics()
	mu.Lock()
	defer mu.Unlock()
	if len(bad) > 0 {
		c.Failf("%s: %s", step, bad[0])
	}
	if after > 0 {
		c.Failf("%s: %d handlers were begun after the server was shut down", step, after)
	}
	if early > 0 {
		c.Failf("%s: the transport was shut down while handlers were running", step)
	}
	for ci, p := range peers {
		if n := w.impl.numDisconnected(ci); n != 1 {
			c.Failf("%s: OnClientDisconnected was invoked %d times for connection %d", step, n, ci)
		}
		for i := 0; i < r.Messages; i++ {
			name := fmt.Sprintf("c%d/m%d", ci, i)
			n := begun[name]
			if n > 1 {
				c.Failf("%s: message %s was handled %d times", step, name, n)
			}
			if isSig(i) {
				continue
			}
			l := p.replies(idOf(uint64(i)))
			switch {
			case n == 1 && (len(l) != 1 || l[0].Type != tReply):
				c.Failf("%s: the reply of request %s that was handled until the end is %+v", step, name, l)
			case n == 0 && (len(l) > 1 || len(l) == 1 && l[0].Type != tReplyShutdown):
				c.Failf("%s: unhandled request %s was replied to with %+v", step, name, l)
			}
		}
	}
	w.checkWriters()
}

func runC14(c *Ctx, k c14) {
	if k.Race != nil {
		runC14race(c, k)
		return
	}
	if k.Crowd != nil {
		runHandlerCrowd(c, *k.Crowd)
		return
	}
	w := newWorld(c, k.Sess.opts(worldOpts{Age: k.Age}), "handler")
	w.sched.Enable("transport", k.Slow)
	if k.Fails {
		w.tr.shutdownErr, w.tr.serveErr = errors.New("shutdown-failed-4711"), errors.New("serving-failed-4711")
	}
	var mu sync.Mutex
	handled := map[string]int{}
	endedAt := map[string]int{}
	handle := func(m wwr.Message) {
		name := string(m.Name())
		mu.Lock()
		handled[name]++
		mu.Unlock()
		w.sched.Point("handler", name)
		at := w.tr.next()
		mu.Lock()
		endedAt[name] = at
		mu.Unlock()
	}
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(m)
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.impl.onSignal = func(_ int, _ wwr.Connection, m wwr.Message) { handle(m) }
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	k.Sess.prepareOutcomes(w)
	run := goTask(w.srv.Run)
	type msg struct {
		conn    int
		name    string
		id      [8]byte
		req     bool
		special bool
		restore bool
		pick    int
		late    bool
	}
	var msgs []*msg
	var shutdowns []*task
	closing := map[int]bool{}
	lost := map[int]bool{}
	released := map[string]bool{}
	busy, lateMsgs, lateSlow, queued := false, false, false, false
	var begun map[string]bool // handlers that were begun before the shutdown
	shutdown := func() {
		if begun == nil {
			begun = map[string]bool{}
			mu.Lock()
			for name := range handled {
				begun[name] = true
			}
			for _, m := range msgs {
				queued = queued || !m.special && handled[m.name] == 0 && !peers[m.conn].isClosed() && !closing[m.conn]
			}
			mu.Unlock()
		}
		shutdowns = append(shutdowns, goTask(w.srv.Shutdown))
	}
	check := func(step string) {
		c.Settle()
		w.checkPanics()
		running := w.sched.Count("handler", "")
		w.tr.mu.Lock()
		calls, at := w.tr.shutdownCalls, w.tr.shutdownAt
		w.tr.mu.Unlock()
		if w.tr.isShuttingDown() != (len(shutdowns) > 0) {
			c.Failf("%s: the transport is told that shutting down is %t", step, w.tr.isShuttingDown())
		}
		if len(shutdowns) == 0 {
			if calls > 0 || run.isDone() {
				c.Failf("%s: the server was shut down for no reason", step)
			}
		} else if running > 0 && calls == 0 {
			for _, s := range shutdowns {
				if s.isDone() {
					c.Failf("%s: Shutdown returned (%v, panic: %v) while %d handlers are running", step, s.err, s.pan, running)
				}
			}
			if run.isDone() {
				c.Failf("%s: Run returned while %d handlers are running", step, running)
			}
		} else if running > 0 {
			c.Failf("%s: the transport was shut down while %d handlers are running: %v", step, running, w.sched.Parked())
		} else if slow := w.sched.Count("transport", ""); slow > 0 {
			if n := doneTasks(shutdowns) + slow; n > len(shutdowns) {
				c.Failf("%s: Shutdown returned before the transport was shut down", step)
			}
		} else {
			reported := false
			for i, s := range shutdowns {
				if !s.isDone() {
					c.Failf("%s: call %d of Shutdown doesn't return although no handler is running", step, i)
				}
				if s.pan != nil || s.err != nil && !k.Fails {
					c.Failf("%s: Shutdown failed: %v, panic: %v", step, s.err, s.pan)
				}
				reported = reported || s.err != nil
			}
			if k.Fails && !reported {
				c.Failf("%s: the transport failed to shut down, but Shutdown returned no error", step)
			}
			if run.isDone() && (run.err != nil) != k.Fails {
				c.Failf("%s: serving failed: %t, Run returned %v", step, k.Fails, run.err)
			}
			if calls < 1 || !run.isDone() {
				c.Failf("%s: the transport wasn't shut down", step)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for _, m := range msgs {
			p := peers[m.conn]
			n := handled[m.name]
			if n > 1 {
				c.Failf("%s: message %s was handled %d times", step, m.name, n)
			}
			if m.late && n > 0 {
				c.Failf("%s: message %s was handled though it was sent after Shutdown was called", step, m.name)
			}
			if begun != nil && !begun[m.name] && n > 0 {
				c.Failf("%s: the handler of message %s was begun after Shutdown was called", step, m.name)
			}
			l := p.replies(m.id)
			if !m.req && !m.special {
				if len(l) > 0 {
					c.Failf("%s: signal %s was replied to", step, m.name)
				}
				continue
			}
			if len(l) > 1 {
				c.Failf("%s: request %s was replied to %d times", step, m.name, len(l))
			}
			if m.special && len(l) == 1 {
				if l[0].Type != tReplyShutdown && (m.late || !k.Sess.answers(m.restore, m.pick, l[0])) {
					c.Failf("%s: special request %s was replied to with %+v", step, m.name, l)
				}
			}
			if m.req {
				switch {
				case n == 1 && released[m.name] && !lost[m.conn] && (len(l) != 1 || l[0].Type != tReply):
					c.Failf("%s: the reply of request %s that was handled until the end is %+v", step, m.name, l)
				case n == 1 && !released[m.name] && len(l) > 0:
					c.Failf("%s: request %s was replied to while it's being handled", step, m.name)
				case n == 0 && len(l) == 1 && l[0].Type != tReplyShutdown:
					c.Failf("%s: unhandled request %s was replied to with %+v", step, m.name, l)
				case n == 0 && len(l) == 1 && len(shutdowns) == 0 && !closing[m.conn]:
					c.Failf("%s: request %s was refused for no reason", step, m.name)
				}
				if calls > 0 && at < endedAt[m.name] {
					c.Failf("%s: the transport was shut down before the handler of %s returned", step, m.name)
				}
			}
			if n == 0 && len(l) == 0 && !p.isClosed() && p.isReading() && p.pendingIn() == 0 {
				c.Failf("%s: request %s was neither handled nor refused", step, m.name)
			}
		}
		for ci, p := range peers {
			// Refused messages don't prevent connections from being closed
			if closing[ci] && !p.isClosed() && w.sched.Count("handler", fmt.Sprintf("c%d/", ci)) == 0 {
				c.Failf("%s: connection %d isn't closed although none of its handlers is running", step, ci)
			}
		}
		if calls == 0 {
			// Reading may only be suspended by the concurrency limit
			for ci, p := range peers {
				limit := k.Limits[ci]
				if limit == 0 {
					limit = 1
				}
				if n := w.sched.Count("handler", fmt.Sprintf("c%d/", ci)); !p.isClosed() && !p.isReading() &&
					(limit < 0 || n < limit) {
					c.Failf("%s: connection %d isn't served although it runs only %d handlers (limit %d)", step, ci, n, limit)
				}
				if p.isClosed() && !closing[ci] && !lost[ci] {
					c.Failf("%s: connection %d was closed before the server was shut down", step, ci)
				}
			}
		}
	}
	release := func(label string) {
		kind, n, _ := strings.Cut(label, ":")
		if kind == "handler" {
			mu.Lock()
			released[n] = true
			mu.Unlock()
		}
		w.sched.ReleaseLabel(kind, n)
	}
	for i, o := range k.Ops {
		step := fmt.Sprintf("op %d (%s)", i, o.Kind)
		p := peers[o.Conn]
		m := &msg{conn: o.Conn, name: fmt.Sprintf("c%d/m%d", o.Conn, i), id: idOf(uint64(i)),
			late: len(shutdowns) > 0}
		var f frame
		switch o.Kind {
		case "request":
			m.req = true
			f = frame{Type: tRequest, ID: m.id, Name: []byte(m.name)}
		case "signal":
			m.id = idOf(1 << 50)
			f = frame{Type: tSignal, Name: []byte(m.name)}
		case "restore":
			m.special, m.restore, m.pick = true, true, o.Pick
			f = k.Sess.restoreFrame(m.id, o.Pick)
		case "closesession":
			m.special = true
			f = frame{Type: tCloseSession, ID: m.id}
		case "heartbeat":
			p.send(frame{Type: tHeartbeat}.encode())
		case "unexpected":
			if !p.isClosed() {
				p.send(unexpectedFrame(o.Pick).encode())
			}
		case "shutdown":
			if len(shutdowns) < 3 {
				busy = busy || w.sched.Count("handler", "") > 0
				shutdown()
			}
		case "connclose":
			closing[o.Conn] = true
			p.conn.Close()
		case "drop":
			lost[o.Conn] = true
			p.drop(errClosed)
		case "release":
			l := w.sched.Parked()
			if len(l) < 1 {
				continue
			}
			release(l[o.Pick%len(l)])
		}
		if f.Type != 0 {
			if p.isClosed() {
				continue
			}
			lateSlow = lateSlow || w.sched.Count("transport", "") > 0
			lateMsgs = lateMsgs || (m.late && busy)
			msgs = append(msgs, m)
			p.send(f.encode())
		}
		check(step)
	}
	if len(shutdowns) == 0 {
		shutdown()
		check("final shutdown")
	}
	for {
		l := w.sched.Parked()
		if len(l) < 1 {
			break
		}
		release(l[0])
		check("release")
	}
	for ci, p := range peers {
		if n := w.impl.numDisconnected(ci); n != 1 || !p.isClosed() {
			c.Failf("connection %d: OnClientDisconnected was invoked %d times after the shutdown", ci, n)
		}
	}
	w.checkWriters()
	c.Nontrivial(busy && lateMsgs)
	c.Class("shutdown while busy", busy)
	c.Class("late messages", lateMsgs)
	c.Class("messages while the transport was shutting down", lateSlow)
	c.Class("sessions enabled", k.Sess > 0)
	c.Class("the transport fails", k.Fails)
	c.Class("messages waiting for a slot when shutting down", queued)
}
