package wwcheck

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
	"pgregory.net/rapid"
	"wwnoise"
)

// memNet is an initialised memchan transport without a server
type memNet struct {
	tr   *memchan.Transport
	mu   sync.Mutex
	opts []wwr.ConnectionOptions
	srv  []wwr.Socket
	down bool
	next wwr.ConnectionOptions
}

func newMemNet(c *Ctx, buf uint32) *memNet {
	n := &memNet{tr: &memchan.Transport{}}
	n.tr.OnBeforeCreation = func() wwr.ConnectionOptions {
		n.mu.Lock()
		defer n.mu.Unlock()
		return n.next
	}
	err := n.tr.Initialize(wwr.ServerOptions{MessageBufferSize: buf, ReadTimeout: longTimeout}, func() bool {
		n.mu.Lock()
		defer n.mu.Unlock()
		return n.down
	}, func(o wwr.ConnectionOptions, s wwr.Socket) {
		n.mu.Lock()
		n.opts = append(n.opts, o)
		n.srv = append(n.srv, s)
		n.mu.Unlock()
	})
	if err != nil {
		c.Failf("initialising the transport failed: %s", err)
	}
	c.Cleanup(func() {
		n.tr.Shutdown()
		c.Settle()
	})
	return n
}

func (n *memNet) accepted() (l []wwr.Socket) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append(l, n.srv...)
}

// ---------------------------------------------------------------------------------------------
// C27: the memchan transport delivers every message exactly once, intact and in order

type c27msg struct {
	Len    int
	Chunks []int
	Over   bool `json:",omitempty"` // attempts to exceed the buffer
	Empty  bool `json:",omitempty"` // nothing is written
	Again  bool `json:",omitempty"` // the writer is closed once more (by the only user of the socket)
}

type c27writer struct {
	Server bool
	Msgs   []c27msg
	Yields int
}

type c27 struct {
	Buf      uint32
	Writers  []c27writer
	Readers  [2]int
	Deadline bool
	Yields   int
}

func init() {
	registerNoisy("C27",
		"several goroutines wrote to the same socket, both sides wrote, or a message didn't fit",
		5000, 150000,
		func(t *rapid.T) (c c27) {
			c.Buf = rapid.SampledFrom([]uint32{32, 33, 64, 300, 4096}).Draw(t, "buf")
			if genRarely(t, "isLarge") {
				c.Buf = rapid.SampledFrom([]uint32{20000, 40000, 65535, 65536, 70000, 140000}).Draw(t, "largeBuf")
			}
			n := rapid.IntRange(1, 5).Draw(t, "writers")
			for i := 0; i < n; i++ {
				w := c27writer{Server: rapid.Bool().Draw(t, "server"), Yields: rapid.IntRange(0, 3).Draw(t, "yields")}
				m := rapid.IntRange(1, 8).Draw(t, "msgs")
				if genRarely(t, "isMany") {
					m = rapid.SampledFrom([]int{70, 130, 260, 300}).Draw(t, "manyMsgs")
				}
				for j := 0; j < m; j++ {
					w.Msgs = append(w.Msgs, c27msg{
						Len:    genLen(t, 20, int(c.Buf), "len"),
						Chunks: rapid.SliceOfN(rapid.IntRange(0, 12), 0, 4).Draw(t, "chunks"),
						Over:   rapid.IntRange(0, 5).Draw(t, "over") == 0,
						Empty:  rapid.IntRange(0, 11).Draw(t, "empty") == 5,
						Again:  rapid.IntRange(0, 11).Draw(t, "again") == 5,
					})
				}
				c.Writers = append(c.Writers, w)
			}
			for i := range c.Readers {
				c.Readers[i] = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "readers")
			}
			c.Deadline = rapid.Bool().Draw(t, "deadline")
			c.Yields = rapid.IntRange(0, 3).Draw(t, "readYields")
			return
		}, runC27)
}

func runC27(c *Ctx, k c27) {
	n := newMemNet(c, k.Buf)
	_, clt := memchan.NewEntangledSockets(n.tr)
	if err := clt.Dial(time.Time{}); err != nil {
		c.Failf("dialing failed: %s", err)
	}
	if !c.Await(func() bool { return len(n.accepted()) == 1 }) {
		c.Failf("the server wasn't told about the connection")
	}
	var srv wwr.Socket = n.accepted()[0]
	yield := func(n int) {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
	socks := [2]wwr.Socket{srv, clt}
	type rec struct {
		writer, seq int
		raw         string
	}
	var mu sync.Mutex
	var got [2][]rec
	deadline := time.Time{}
	if k.Deadline {
		deadline = time.Now().Add(longTimeout)
	}
	var readers []*task
	for side := range socks {
		for i := 0; i < k.Readers[side]; i++ {
			readers = append(readers, goTask(func() error {
				msg := message.NewMessage(k.Buf)
				for {
					if err := socks[side].Read(msg, deadline); err != nil {
						if !err.IsCloseErr() {
							return fmt.Errorf("reading failed: %s", err)
						}
						return nil
					}
					r := rec{writer: -1, raw: string(msg.MsgBuffer.Data())}
					p := strings.Split(string(msg.MsgName), ".")
					if len(p) == 2 {
						r.writer, _ = strconv.Atoi(p[0])
						r.seq, _ = strconv.Atoi(p[1])
					}
					mu.Lock()
					got[side] = append(got[side], r)
					mu.Unlock()
					msg.Close()
					yield(k.Yields)
				}
			}))
		}
	}
	raw := func(w, i int, m c27msg) []byte {
		f := frame{Type: tSignal, Name: []byte(fmt.Sprintf("%d.%d", w, i))}
		f.Payload = Blob{N: m.Len - len(f.encode()), S: uint64(w*1000 + i)}.bytes()
		return f.encode()
	}
	over := false
	var users [2]int
	for _, w := range k.Writers {
		if w.Server {
			users[1]++
		} else {
			users[0]++
		}
	}
	var writers []*task
	for i, w := range k.Writers {
		sock := socks[1]
		alone := users[0] == 1 && !w.Server || users[1] == 1 && w.Server
		if w.Server {
			sock = socks[0]
		}
		for _, m := range w.Msgs {
			over = over || m.Over
		}
		writers = append(writers, goTask(func() error {
			for j, m := range w.Msgs {
				yield(w.Yields)
				wr, err := sock.GetWriter()
				if err != nil {
					return fmt.Errorf("writer %d couldn't be acquired: %s", i, err)
				}
				b := raw(i, j, m)
				if m.Empty {
					if err := wr.Close(); err == nil {
						return fmt.Errorf("writer %d: message %d: an empty message was sent", i, j)
					}
					if m.Again && alone {
						if err := wr.Close(); err == nil {
							return fmt.Errorf("writer %d: message %d: an empty message was sent by closing again", i, j)
						}
					}
					continue
				}
				if m.Over {
					b = append(b, make([]byte, int(k.Buf)-len(b)+1)...)
				}
				failed := false
				for _, n := range append(m.Chunks, len(b)) {
					if n > len(b) {
						n = len(b)
					}
					wn, err := wr.Write(b[:n])
					if err != nil {
						if _, ok := err.(wwr.ErrBufferOverflow); !ok || !m.Over {
							return fmt.Errorf("writer %d: message %d: unexpected error %v", i, j, err)
						}
						failed = true
						break
					}
					if wn != n {
						return fmt.Errorf("%d of %d bytes were written", wn, n)
					}
					b = b[n:]
					yield(w.Yields % 2)
				}
				if m.Over && !failed {
					return fmt.Errorf("writer %d: message %d exceeds the buffer but was accepted", i, j)
				}
				if err := wr.Close(); (err != nil) != m.Over {
					return fmt.Errorf("writer %d: message %d (too large: %t): %v", i, j, m.Over, err)
				}
				if m.Again && alone {
					if err := wr.Close(); err == nil {
						return fmt.Errorf("writer %d: message %d: closing the writer again was accepted", i, j)
					}
				}
			}
			return nil
		}))
	}
	c.Settle()
	for _, t := range writers {
		if !t.isDone() {
			c.Failf("a writer is stuck though its messages are being read")
		}
		if t.pan != nil || t.err != nil {
			c.Failf("writing failed: %v %v", t.pan, t.err)
		}
	}
	for _, t := range readers {
		if t.isDone() {
			c.Failf("a reader stopped: %v %v", t.pan, t.err)
		}
	}
	if !srv.IsConnected() || !clt.IsConnected() {
		c.Failf("the connection was closed")
	}
	for side := range socks {
		seen := map[string]int{}
		last := map[int]int{}
		for _, r := range got[side] {
			seen[r.raw]++
			if k.Readers[side] == 1 {
				if prev, ok := last[r.writer]; ok && prev >= r.seq {
					c.Failf("message %d of writer %d was received after message %d", r.seq, r.writer, prev)
				}
				last[r.writer] = r.seq
			}
		}
		want := 0
		for i, w := range k.Writers {
			if w.Server != (side == 1) {
				continue
			}
			for j, m := range w.Msgs {
				if m.Over || m.Empty {
					continue
				}
				want++
				if n := seen[string(raw(i, j, m))]; n != 1 {
					c.Failf("message %d of writer %d was received %d times", j, i, n)
				}
			}
		}
		if len(got[side]) != want {
			c.Failf("%d messages were sent, %d were received", want, len(got[side]))
		}
	}
	t := goTask(clt.Close)
	c.Settle()
	for _, r := range append(readers, t) {
		if !r.isDone() || r.pan != nil || r.err != nil {
			c.Failf("after the closure a reader is stuck or failed: %v %v", r.pan, r.err)
		}
	}
	sides := [2]int{}
	for _, w := range k.Writers {
		if w.Server {
			sides[1]++
		} else {
			sides[0]++
		}
	}
	c.Nontrivial(over || sides[0] > 1 || sides[1] > 1 || (sides[0] > 0 && sides[1] > 0))
	c.Class("too large", over)
	c.Class("concurrent writers", sides[0] > 1 || sides[1] > 1)
}

// ---------------------------------------------------------------------------------------------
// C28: closing a memchan connection strands nobody and leaves nothing behind

type c28op struct {
	Kind string // dial, refuse, read, write, expire, closesrv, closeclt, oldread, oldwrite, oldclose, down, shutdown
	Pair int
	Srv  bool
	Same bool `json:",omitempty"` // executed concurrently with the next operation
}

type c28 struct {
	Pairs int
	Via   int `json:",omitempty"` // the number of pairs created by the client transport, one more isn't related to any server
	Ops   []c28op
	Late  *c28late `json:",omitempty"`
}

// c28late is a call that's held up at a synchronisation point while the sockets are connected again
type c28late struct {
	Srv, Write bool
	CloseSrv   bool
	At         int
	Rounds     int // the number of former connections
}

func init() {
	registerNoisy("C28",
		"a connection was closed while somebody was reading or writing, or a pair of sockets was connected again",
		5250, 157500,
		func(t *rapid.T) (c c28) {
			if rapid.IntRange(0, 9).Draw(t, "isLate") == 5 {
				c.Late = &c28late{
					Srv:      rapid.Bool().Draw(t, "srv"),
					Write:    rapid.Bool().Draw(t, "write"),
					CloseSrv: rapid.Bool().Draw(t, "closeSrv"),
					At:       rapid.IntRange(0, 15).Draw(t, "at"),
					Rounds:   rapid.IntRange(0, 2).Draw(t, "rounds"),
				}
				return
			}
			c.Pairs = rapid.IntRange(1, 2).Draw(t, "pairs")
			c.Via = rapid.IntRange(0, c.Pairs).Draw(t, "via")
			n := rapid.IntRange(2, 24).Draw(t, "ops")
			for i := 0; i < n; i++ {
				o := c28op{
					Kind: rapid.SampledFrom([]string{"dial", "dial", "dial", "read", "read", "read", "write", "write", "write",
						"closesrv", "closeclt", "expire", "oldread", "oldwrite", "oldclose", "refuse", "shutdown", "down"}).Draw(t, "kind"),
					Pair: rapid.IntRange(0, c.Pairs-1).Draw(t, "pair"),
				}
				switch o.Kind {
				case "read", "write", "expire":
					o.Srv = rapid.Bool().Draw(t, "srv")
				}
				switch o.Kind {
				case "read", "write", "closesrv", "closeclt":
					o.Same = rapid.IntRange(0, 2).Draw(t, "same") == 0
				case "shutdown", "down":
					if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
						o.Kind = "dial"
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return
		}, runC28)
}

type c28task struct {
	t      *task
	name   string
	pair   int
	epoch  int
	srv    bool // the side it's executed on
	write  bool
	expire bool
	id     string
	got    string
	rerr   wwr.ErrSockRead
}

// runC28late verifies that a reader or writer of a former connection doesn't interfere with the next one
func runC28late(c *Ctx, k c28late) {
	n := newMemNet(c, 64)
	_, clt := memchan.NewEntangledSockets(n.tr)
	accepted := 0
	dial := func() wwr.Socket {
		t := goTask(func() error { return clt.Dial(time.Time{}) })
		c.Settle()
		if !t.isDone() || t.pan != nil || t.err != nil {
			c.Failf("connecting (again) is stuck or failed: %v %v", t.pan, t.err)
		}
		accepted++
		l := n.accepted()
		if len(l) != accepted {
			c.Failf("the server was told about %d of %d connections", len(l), accepted)
		}
		return l[accepted-1]
	}
	msgs := 0
	type call struct {
		t       *task
		id, got string
		rerr    wwr.ErrSockRead
	}
	read := func(s wwr.Socket) *call {
		l := &call{}
		l.t = goTask(func() error {
			msg := message.NewMessage(64)
			if l.rerr = s.Read(msg, time.Time{}); l.rerr == nil {
				l.got = string(msg.MsgBuffer.Data())
			}
			return nil
		})
		return l
	}
	write := func(s wwr.Socket) *call {
		msgs++
		l := &call{id: string(frame{Type: tSignal, Name: []byte("m"), Payload: []byte(strconv.Itoa(msgs))}.encode())}
		l.t = goTask(func() error {
			w, err := s.GetWriter()
			if err != nil {
				return err
			}
			if _, err := w.Write([]byte(l.id)); err != nil {
				w.Close()
				return err
			}
			return w.Close()
		})
		return l
	}
	var srv wwr.Socket
	for i := 0; i <= k.Rounds; i++ {
		if srv = dial(); i < k.Rounds {
			r, w := read(clt), write(srv)
			c.Settle()
			if r.got != w.id {
				c.Failf("connection %d: read %q, written was %q (%v)", i, r.got, w.id, w.t.err)
			}
			clt.Close()
			c.Settle()
		}
	}
	// The late call is held up at one of its synchronisation points until it's released
	parked, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	free := func() { once.Do(func() { close(release) }) }
	defer free()
	at := ""
	c.hold([]int{k.At}, func(site string) {
		at = site
		close(parked)
		<-release
	})
	c.Resync(0)
	side := func(srvSide bool, s wwr.Socket) wwr.Socket {
		if srvSide {
			return s
		}
		return clt
	}
	var late *call
	if k.Write {
		late = write(side(k.Srv, srv))
	} else {
		late = read(side(k.Srv, srv))
	}
	c.Settle()
	held := false
	select {
	case <-parked:
		held = true
	default:
		// It's waiting
	}
	wwnoise.Set(nil)
	closer := goTask(side(k.CloseSrv, srv).Close)
	c.Settle()
	if !closer.isDone() {
		// It's held up holding a lock
		free()
		c.Settle()
	}
	if !closer.isDone() || closer.pan != nil || closer.err != nil {
		c.Failf("closing is stuck or failed: %v %v", closer.pan, closer.err)
	}
	next := dial()
	// Both directions are used
	reads := []*call{read(clt), read(next)}
	c.Settle()
	writes := []*call{write(next), write(clt)}
	c.Settle()
	free()
	c.Settle()
	if ok := late.t.isDone() && late.t.err == nil && late.rerr == nil; !k.Srv && held && (ok || !late.t.isDone()) &&
		!strings.HasSuffix(at, "/select") && !strings.HasSuffix(at, "/send") && !strings.HasSuffix(at, "/recv") {
		// The client socket was held up before it determined its connection, it's used for the new one
		clt.Close()
		c.Settle()
		for _, l := range append(append(reads, writes...), late) {
			if !l.t.isDone() || l.t.pan != nil {
				c.Failf("a call is stuck though the connection is closed: %v", l.t.pan)
			}
		}
		return
	}
	if !late.t.isDone() || late.t.pan != nil {
		c.Failf("a call on the former connection is stuck: %v", late.t.pan)
	}
	if k.Write && late.t.err == nil || !k.Write && (late.rerr == nil || !late.rerr.IsCloseErr()) {
		c.Failf("a call on the former connection succeeded: %q, or failed unexpectedly: %v", late.got, late.rerr)
	}
	for i, r := range reads {
		if !r.t.isDone() || r.t.pan != nil || r.got != writes[i].id {
			c.Failf("reading the new connection: returned %t, %q instead of %q (%v, the late call read %q)", r.t.isDone(), r.got,
				writes[i].id, r.rerr, late.got)
		}
		if w := writes[i]; !w.t.isDone() || w.t.pan != nil || w.t.err != nil {
			c.Failf("writing to the new connection is stuck or failed (returned %t): %v %v", w.t.isDone(), w.t.pan, w.t.err)
		}
	}
	if !clt.IsConnected() || !next.IsConnected() || srv.IsConnected() {
		c.Failf("connected are the client: %t, the new connection: %t, the former one: %t", clt.IsConnected(), next.IsConnected(),
			srv.IsConnected())
	}
	t := goTask(clt.Close)
	c.Settle()
	if !t.isDone() || t.pan != nil || t.err != nil || clt.IsConnected() || next.IsConnected() {
		c.Failf("closing the new connection is stuck or failed: %v %v", t.pan, t.err)
	}
	c.Nontrivial(held)
	c.Class("held up while connecting again", held)
}

func runC28(c *Ctx, k c28) {
	if k.Late != nil {
		runC28late(c, *k.Late)
		return
	}
	n := newMemNet(c, 64)
	serve := goTask(n.tr.Serve)
	type pair struct {
		clt       *memchan.Socket
		srv       []wwr.Socket // by epoch
		connected bool
	}
	var pairs []*pair
	for i := 0; i < k.Pairs; i++ {
		_, clt := memchan.NewEntangledSockets(n.tr)
		if i < k.Via {
			s, err := (&memchan.ClientTransport{Server: n.tr}).NewSocket(time.Duration(i) * time.Second)
			if err != nil {
				c.Failf("the client transport doesn't provide sockets: %s", err)
			}
			clt = s.(*memchan.Socket)
		}
		pairs = append(pairs, &pair{clt: clt})
	}
	if k.Via > 0 {
		// A socket of no server is never connected
		s, err := (&memchan.ClientTransport{}).NewSocket(0)
		if err != nil {
			c.Failf("the client transport doesn't provide disconnected sockets: %s", err)
		}
		t := goTask(func() error {
			for i := 0; i < 2; i++ {
				if err := s.Dial(time.Time{}); err == nil {
					return errors.New("dialing no server succeeded")
				}
				if w, err := s.GetWriter(); err == nil || w != nil {
					return errors.New("a writer was returned")
				}
				if err := s.Read(message.NewMessage(64), time.Time{}); err == nil || !err.IsCloseErr() {
					return fmt.Errorf("reading resulted in %v", err)
				}
				if s.IsConnected() {
					return errors.New("it's connected")
				}
				if err := s.Close(); err != nil {
					return err
				}
			}
			return nil
		})
		c.Settle()
		if !t.isDone() || t.pan != nil || t.err != nil {
			c.Failf("a socket of no server misbehaves (returned %t): %v %v", t.isDone(), t.pan, t.err)
		}
	}
	var tasks []*c28task
	accepted, msgs := 0, 0
	refuse, down, shut := false, false, false
	interrupted, reconnected := false, false
	read := func(s wwr.Socket, tk *c28task, deadline time.Time) {
		tk.t = goTask(func() error {
			msg := message.NewMessage(64)
			tk.rerr = s.Read(msg, deadline)
			if tk.rerr == nil {
				tk.got = string(msg.MsgBuffer.Data())
			}
			return nil
		})
		tasks = append(tasks, tk)
	}
	write := func(s wwr.Socket, tk *c28task) {
		msgs++
		tk.id = string(frame{Type: tSignal, Name: []byte("m"), Payload: []byte(strconv.Itoa(msgs))}.encode())
		tk.write = true
		tk.t = goTask(func() error {
			w, err := s.GetWriter()
			if err != nil {
				return err
			}
			if _, err := w.Write([]byte(tk.id)); err != nil {
				w.Close()
				return fmt.Errorf("writing failed: %s", err)
			}
			return w.Close()
		})
		tasks = append(tasks, tk)
	}
	closing := map[int]bool{}
	// writing returns true if there's a pending writer on the same socket
	writing := func(tk *c28task) bool {
		for _, w := range tasks {
			if w.write && w.pair == tk.pair && w.srv == tk.srv && w.epoch >= 0 && !w.t.isDone() {
				return true
			}
		}
		return false
	}
	for i, o := range k.Ops {
		if !o.Same {
			c.Settle()
		}
		p := pairs[o.Pair]
		step := fmt.Sprintf("op %d (%s pair %d server %t)", i, o.Kind, o.Pair, o.Srv)
		epoch := len(p.srv) - 1
		var sock wwr.Socket = p.clt
		tk := &c28task{name: step, pair: o.Pair, epoch: epoch, srv: o.Srv}
		if !p.connected {
			tk.epoch = -1
		}
		func() {
			if o.Srv {
				if epoch < 0 {
					return
				}
				sock = p.srv[epoch]
			}
			switch o.Kind {
			case "dial":
				opts := wwr.ConnectionOptions{ConcurrencyLimit: i + 1, Info: map[int]interface{}{1: i}}
				if refuse {
					opts.Connection = wwr.Refuse
				}
				n.mu.Lock()
				n.next = opts
				n.mu.Unlock()
				t := goTask(func() error { return p.clt.Dial(time.Time{}) })
				c.Settle()
				if !t.isDone() || t.pan != nil {
					c.Failf("%s: Dial is stuck or panicked: %v", step, t.pan)
				}
				ok := !p.connected && !refuse && !down && !shut
				if (t.err == nil) != ok {
					c.Failf("%s: Dial returned %v (connected %t, refused %t, shutting down %t, shut down %t)", step, t.err,
						p.connected, refuse, down, shut)
				}
				if ok {
					accepted++
					p.connected = true
					l := n.accepted()
					if len(l) != accepted {
						c.Failf("%s: the server was told about %d of %d connections", step, len(l), accepted)
					}
					n.mu.Lock()
					got := n.opts[accepted-1]
					n.mu.Unlock()
					if got.ConcurrencyLimit != i+1 || got.Info[1] != i {
						c.Failf("%s: the server was given the options %+v", step, got)
					}
					p.srv = append(p.srv, l[accepted-1])
					reconnected = reconnected || len(p.srv) > 1
				}
			case "refuse":
				refuse = !refuse
			case "down":
				n.mu.Lock()
				n.down = true
				n.mu.Unlock()
				down = true
			case "read":
				read(sock, tk, time.Time{})
			case "expire":
				// Readers are queued, the deadline concerns only the foremost
				queued := false
				for _, other := range tasks {
					queued = queued || (!other.t.isDone() && !other.write && other.pair == o.Pair && other.srv == o.Srv)
				}
				if queued {
					return
				}
				tk.expire = true
				read(sock, tk, time.Unix(1, 0))
				if p.connected {
					closing[o.Pair] = true
				}
			case "write":
				write(sock, tk)
			case "closesrv", "closeclt":
				if o.Kind == "closeclt" {
					sock = p.clt
				} else if epoch < 0 {
					return
				} else {
					sock = p.srv[epoch]
				}
				if p.connected {
					closing[o.Pair] = true
				}
				tk.name += " closing"
				tk.t = goTask(sock.Close)
				tasks = append(tasks, tk)
			case "oldread", "oldwrite", "oldclose":
				// Sockets of former connections
				old := len(p.srv) - 1
				if p.connected {
					old--
				}
				if old < 0 {
					return
				}
				tk.epoch, tk.srv = -1, true
				switch o.Kind {
				case "oldread":
					read(p.srv[old], tk, time.Time{})
				case "oldwrite":
					write(p.srv[old], tk)
				default:
					tk.t = goTask(p.srv[old].Close)
					tasks = append(tasks, tk)
				}
			case "shutdown":
				t := goTask(n.tr.Shutdown)
				c.Settle()
				if !t.isDone() || t.pan != nil || t.err != nil {
					c.Failf("%s: Shutdown is stuck or failed: %v %v", step, t.pan, t.err)
				}
				shut = true
				for j, q := range pairs {
					if q.connected {
						closing[j] = true
					}
				}
			}
		}()
		if o.Same && i+1 < len(k.Ops) && k.Ops[i+1].Same {
			continue
		}
		c.Settle()
		if tk.expire && tk.got != "" {
			// There was a message to be read
			delete(closing, o.Pair)
		}
		open := map[string][2]int{}
		delivered := map[string]int{}
		for _, tk := range tasks {
			if tk.t.isDone() {
				if tk.t.pan != nil {
					c.Failf("%s panicked: %v", tk.name, tk.t.pan)
				}
				if tk.got != "" {
					delivered[tk.got]++
				}
				if closing[tk.pair] && tk.epoch >= 0 && tk.epoch == len(pairs[tk.pair].srv)-1 {
					interrupted = interrupted || (tk.write && tk.t.err != nil) || tk.rerr != nil
				}
				continue
			}
			if tk.write && tk.epoch < 0 && writing(tk) {
				// Is given the writer after the pending one
				continue
			}
			if tk.epoch < 0 || tk.epoch < len(pairs[tk.pair].srv)-1 || closing[tk.pair] || !pairs[tk.pair].connected {
				c.Failf("%s: %s is stuck though the connection is closed", step, tk.name)
			}
			side := tk.srv
			j := 0
			if tk.write {
				side = !side
				j = 1
			}
			key := fmt.Sprint(tk.pair, side)
			x := open[key]
			x[j]++
			open[key] = x
		}
		for key, x := range open {
			if x[0] > 0 && x[1] > 0 {
				c.Failf("%s: %d readers and %d writers of the same direction (%s) are waiting for each other", step, x[0], x[1],
					key)
			}
		}
		for j := range pairs {
			if closing[j] {
				pairs[j].connected = false
				delete(closing, j)
			}
		}
		for _, tk := range tasks {
			if !tk.t.isDone() {
				continue
			}
			switch {
			case tk.write:
				want := 0
				if tk.t.err == nil {
					want = 1
				}
				if delivered[tk.id] != want {
					c.Failf("%s: the result was %v, but the message was received %d times", tk.name, tk.t.err, delivered[tk.id])
				}
				if tk.epoch < 0 && tk.t.err == nil {
					c.Failf("%s: a message was written to a closed connection", tk.name)
				}
			case tk.rerr != nil:
				if !tk.expire && !tk.rerr.IsCloseErr() {
					c.Failf("%s: unexpected error %v", tk.name, tk.rerr)
				}
			case tk.got != "":
				if tk.epoch < 0 {
					c.Failf("%s: a message was read from a closed connection", tk.name)
				}
				for _, w := range tasks {
					if w.write && w.id == tk.got && (w.pair != tk.pair || w.epoch != tk.epoch || w.srv == tk.srv) {
						c.Failf("%s received the message of %s", tk.name, w.name)
					}
				}
			}
		}
		for j, q := range pairs {
			if q.clt.IsConnected() != q.connected {
				c.Failf("%s: the client socket of pair %d is connected: %t", step, j, !q.connected)
			}
			for e, s := range q.srv {
				if want := q.connected && e == len(q.srv)-1; s.IsConnected() != want {
					c.Failf("%s: the server socket of connection %d of pair %d is connected: %t", step, e, j, !want)
				}
			}
		}
		if serve.isDone() != shut {
			c.Failf("%s: Serve returned: %t, the transport was shut down: %t", step, serve.isDone(), shut)
		}
		if n := len(n.accepted()); n != accepted {
			c.Failf("%s: the server was told about %d connections, %d were established", step, n, accepted)
		}
	}
	var closers []*task
	for _, p := range pairs {
		closers = append(closers, goTask(p.clt.Close))
	}
	c.Settle()
	for _, t := range closers {
		if !t.isDone() || t.pan != nil || t.err != nil {
			c.Failf("closing a client socket is stuck or failed: %v %v", t.pan, t.err)
		}
	}
	for _, tk := range tasks {
		if !tk.t.isDone() {
			c.Failf("%s is stuck though the connections are closed", tk.name)
		}
	}
	c.Nontrivial(interrupted || reconnected)
	c.Class("interrupted", interrupted)
	c.Class("reconnected", reconnected)
	c.Class("shut down", shut)
}

// ---------------------------------------------------------------------------------------------
// C30: messages initiated by the server reach the client intact or fail with an error

type c30op struct {
	Kind string // signal, request, create, drop
	Conn int
	Name []byte `json:",omitempty"`
	Enc  int    `json:",omitempty"`
	Pay  Blob   `json:",omitempty"`
	Free int
}

type c30 struct {
	Buf    uint32
	Limits []int
	Gates  []string
	Ops    []c30op
	Order  []int
}

func init() {
	registerNoisy("C30",
		"a signal was refused, didn't fit by a few bytes at most, or several messages were being sent at the same time",
		6000, 180000,
		func(t *rapid.T) (c c30) {
			c.Buf = rapid.SampledFrom([]uint32{32, 64, 128, 300, 1024}).Draw(t, "buf") +
				rapid.Uint32Range(0, 2).Draw(t, "odd")
			if rapid.IntRange(0, 24).Draw(t, "large") == 13 {
				c.Buf += rapid.SampledFrom([]uint32{65504, 65536, 140000}).Draw(t, "largeBuf")
			}
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 1, 4}).Draw(t, "limit"))
			}
			for _, g := range []string{"writer", "flush", "flushed"} {
				if rapid.Bool().Draw(t, g) {
					c.Gates = append(c.Gates, g)
				}
			}
			m := rapid.IntRange(1, 10).Draw(t, "ops")
			for i := 0; i < m; i++ {
				o := c30op{
					Kind: rapid.SampledFrom([]string{"signal", "signal", "signal", "signal", "signal", "request", "create",
						"drop"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
					Free: rapid.IntRange(0, 2).Draw(t, "free"),
				}
				switch o.Kind {
				case "drop":
					if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
						o.Kind = "signal"
					}
				}
				o.Enc = genEnc(t)
				if o.Kind == "signal" {
					switch rapid.IntRange(0, 7).Draw(t, "nameMode") {
					case 0:
						o.Name = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "rawName")
					case 1:
						o.Name = genName(t, 250, 260, "longName")
					default:
						o.Name = genName(t, 0, 20, "name")
					}
				}
				if rapid.IntRange(0, 1).Draw(t, "fit") == 0 {
					// Around the size of the buffer
					max := int(c.Buf) - 2 - len(o.Name) + rapid.IntRange(-3, 3).Draw(t, "off")
					if o.Kind == "request" {
						max = int(c.Buf) - 10
					}
					if max < 0 {
						max = 0
					}
					o.Pay = Blob{N: max, S: uint64(i)}
				} else {
					o.Pay = genBlob(t, 0, 40, "pay")
				}
				if rapid.IntRange(0, 24).Draw(t, "huge") == 13 {
					o.Pay = genHuge(t, int(c.Buf))
				}
				if max := int(c.Buf) - 10; o.Kind == "request" && o.Pay.len() > max {
					// Longer requests aren't accepted
					o.Pay = Blob{N: max, S: uint64(i)}
				}
				if o.Kind == "request" || rapid.IntRange(0, 5).Draw(t, "odd") > 0 {
					o.Pay = evenIf(o.Enc == encUtf16, o.Pay)
				}
				if o.Kind == "request" && o.Pay.len() < 1 {
					o.Pay = Blob{N: 2}
				}
				c.Ops = append(c.Ops, o)
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 8, 8).Draw(t, "order")
			return
		}, runC30)
}

func runC30(c *Ctx, k c30) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled, BufSize: k.Buf}, k.Gates...)
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{Encoding: m.PayloadEncoding(), Data: append([]byte{}, m.Payload()...)}, nil
	}
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connectGated(l))
	}
	type sent struct {
		o      c30op
		t      *task
		f      frame
		bad    string
		margin int // bytes left in the buffer
		gone   bool
	}
	var all []*sent
	maxParked := 0
	gone := map[int]bool{}
	step := func(choice int) bool {
		c.Settle()
		w.checkPanics()
		if n := len(w.sched.Parked()); n > maxParked {
			maxParked = n
		}
		return w.sched.Release(choice) != ""
	}
	near := false
	for n, o := range k.Ops {
		p := peers[o.Conn]
		s := &sent{o: o, gone: gone[o.Conn]}
		pay := o.Pay.bytes()
		switch o.Kind {
		case "signal":
			s.f = frame{Type: byte(tSignal + o.Enc), Enc: o.Enc, Name: o.Name, Payload: pay}
			for _, b := range o.Name {
				if b < 32 || b > 126 {
					s.bad = "invalid name"
				}
			}
			if len(o.Name) > 255 {
				s.bad = "name too long"
			}
			if o.Enc == encUtf16 && len(pay)%2 == 1 {
				s.bad = "odd UTF16 payload"
			}
			if len(o.Name) == 0 && len(pay) == 0 {
				s.bad = "empty"
			}
			if len(o.Name) <= 255 {
				s.margin = int(k.Buf) - len(s.f.encode())
			} else {
				s.margin = int(k.Buf) - len(o.Name) - len(pay) - 2
			}
			near = near || (s.margin > -4 && s.margin < 4) || s.bad != ""
			s.t = goTask(func() error {
				return p.conn.Signal(o.Name, wwr.Payload{Encoding: wwr.PayloadEncoding(o.Enc), Data: pay})
			})
		case "request":
			s.f = frame{Type: byte(tRequest + o.Enc), Enc: o.Enc, ID: idOf(uint64(n)), Payload: pay}
			p.send(s.f.encode())
		case "create":
			s.t = goTask(func() error {
				return p.conn.CreateSession(mapInfo{"a": strings.Repeat("x", o.Pay.len())})
			})
		case "drop":
			gone[o.Conn] = true
			p.drop(errAbnormal)
		}
		all = append(all, s)
		for j := 0; j < o.Free; j++ {
			step(k.Order[(n+j)%len(k.Order)])
		}
	}
	for i := 0; step(k.Order[i%len(k.Order)]); i++ {
	}
	for i, p := range peers {
		frames := map[string]int{}
		total := 0
		for _, f := range p.received() {
			if len(f.data) > int(k.Buf) {
				c.Failf("a message of %d bytes was sent, the message buffer has %d bytes: %x", len(f.data), k.Buf, f.data)
			}
		}
		for _, f := range p.decoded() {
			if f.Type == tSessCreated {
				f.Payload = nil
			}
			frames[fmt.Sprintf("%d %q %q %x", f.Type, f.Name, f.Payload, f.ID)]++
			total++
		}
		want := 0
		created := 0
		for n, s := range all {
			if s.o.Conn != i {
				continue
			}
			what := fmt.Sprintf("op %d (%s of %q, %d bytes, encoding %d)", n, s.o.Kind, s.o.Name, s.o.Pay.len(), s.o.Enc)
			if s.t != nil && (!s.t.isDone() || s.t.pan != nil) {
				c.Failf("%s is stuck or panicked: %v", what, s.t.pan)
			}
			switch s.o.Kind {
			case "signal":
				mustFail := s.bad != "" || s.margin < 0 || s.gone
				if mustFail && s.t.err == nil {
					c.Failf("%s succeeded (%s, %d bytes left, connection lost %t)", what, s.bad, s.margin, s.gone)
				}
				if !mustFail && !gone[i] && s.t.err != nil {
					c.Failf("%s failed: %s", what, s.t.err)
				}
				if s.bad == "" && s.margin < 0 {
					if _, ok := s.t.err.(wwr.ErrBufferOverflow); !ok {
						c.Failf("%s: expected a buffer overflow, got %T", what, s.t.err)
					}
				}
				if s.bad == "empty" {
					if _, ok := s.t.err.(wwr.ErrProtocol); !ok {
						c.Failf("%s: expected a protocol error, got %T", what, s.t.err)
					}
				}
				if s.t.err != nil {
					continue
				}
				want++
				key := fmt.Sprintf("%d %q %q %x", s.f.Type, s.f.Name, s.f.Payload, s.f.ID)
				if frames[key] < 1 {
					c.Failf("%s succeeded but the client didn't receive it (received: %v)", what, frames)
				}
				frames[key]--
			case "request":
				if gone[i] {
					continue
				}
				want++
				key := fmt.Sprintf("%d %q %q %x", tReply+s.o.Enc, []byte{}, s.f.Payload, s.f.ID)
				if s.o.Enc != encUtf16 || len(s.f.Payload)+10 <= int(k.Buf) {
					if frames[key] < 1 {
						c.Failf("%s: the reply wasn't received (received: %v)", what, frames)
					}
				}
			case "create":
				if s.t.err == nil {
					created++
					want++
				}
			}
		}
		if got := p.countType(tSessCreated); !gone[i] && got != created {
			c.Failf("connection %d: %d sessions were created, %d notifications were sent", i, created, got)
		}
		if total != want && !gone[i] {
			c.Failf("connection %d received %d messages, expected %d: %v", i, total, want, frames)
		}
		if created > 1 || (created == 0 && p.conn.HasSession()) {
			c.Failf("connection %d: %d sessions created, has one: %t", i, created, p.conn.HasSession())
		}
	}
	w.checkWriters()
	c.Nontrivial(near || maxParked > 1)
	c.Class("refused or near the limit", near)
	c.Class("concurrent", maxParked > 1)
}

var _ = math.MaxInt
