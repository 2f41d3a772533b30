package wwcheck

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"weak"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C29: connections and sessions leave nothing behind once they're gone
//
// The same history is repeated on one server. Whatever outlives its connections accumulates.

type c29op struct {
	Kind string // dial, vanish (closed while it's dialing), expire, request, signal, restore, closereq, garbage, closeclt, closesrv, release, closekey
	Pair int
	Do   string `json:",omitempty"` // what the handler does
	Arg  int    `json:",omitempty"`
	Fast bool   `json:",omitempty"` // don't await the effects
}

type c29 struct {
	Pairs    int
	Limit    int
	MaxConns uint
	Refuse   int  // every n-th connection is refused by the server, 0: none
	Fresh    bool // there are new sockets in each repetition
	Ops      []c29op
}

// The repetitions in a round, and the rounds there are as long as anything grew in all of them
const (
	c29reps   = 4
	c29rounds = 5
)

func init() {
	registerNoisy("C29",
		"a connection was closed while it had a session or a running handler",
		1000, 30000,
		func(t *rapid.T) (c c29) {
			c.Pairs = rapid.IntRange(1, 3).Draw(t, "pairs")
			c.Limit = rapid.SampledFrom([]int{0, 1, 2, -1}).Draw(t, "limit")
			c.MaxConns = rapid.SampledFrom([]uint{0, 1, 2}).Draw(t, "max")
			c.Refuse = rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "refuse")
			c.Fresh = rapid.IntRange(0, 2).Draw(t, "fresh") == 0
			n := rapid.IntRange(2, 14).Draw(t, "ops")
			for i := 0; i < n; i++ {
				o := c29op{
					Kind: rapid.SampledFrom([]string{"request", "request", "request", "dial", "dial", "vanish", "expire", "signal", "restore", "restore",
						"closereq", "closeclt", "closeclt", "closesrv", "release", "garbage", "closekey"}).Draw(t, "kind"),
					Pair: rapid.IntRange(0, c.Pairs-1).Draw(t, "pair"),
					Fast: rapid.IntRange(0, 3).Draw(t, "fast") == 0,
				}
				switch o.Kind {
				case "request", "signal":
					o.Do = rapid.SampledFrom([]string{"create", "create", "create", "", "block", "block", "fail", "close", "signal",
						"closeSession", "session"}).Draw(t, "do")
				case "restore", "closekey":
					o.Arg = rapid.IntRange(0, 3).Draw(t, "key")
				}
				c.Ops = append(c.Ops, o)
			}
			return
		}, runC29)
}

// tracker counts the objects of a kind that are still reachable
type tracker struct {
	lock sync.Mutex
	refs []weak.Pointer[byte]
}

func (t *tracker) add(obj interface{}) {
	v := reflect.ValueOf(obj)
	if v.Kind() != reflect.Pointer {
		return
	}
	w := weak.Make((*byte)(unsafe.Pointer(v.Pointer())))
	t.lock.Lock()
	t.refs = append(t.refs, w)
	t.lock.Unlock()
}

func (t *tracker) reachable() (n int) {
	t.lock.Lock()
	defer t.lock.Unlock()
	for _, r := range t.refs {
		if r.Value() != nil {
			n++
		}
	}
	return
}

// trackedInfo is a session info object that's tracked together with all of its copies
type trackedInfo struct {
	t *tracker
	n int
	_ [64]byte
}

func newTrackedInfo(t *tracker, n int) *trackedInfo {
	i := &trackedInfo{t: t, n: n}
	t.add(i)
	return i
}

func (i *trackedInfo) Fields() []string           { return []string{"n"} }
func (i *trackedInfo) Value(f string) interface{} { return i.n }
func (i *trackedInfo) Copy() wwr.SessionInfo      { return newTrackedInfo(i.t, i.n) }
func (l *leakImpl) parse(m map[string]interface{}) wwr.SessionInfo {
	n, _ := m["n"].(int)
	return newTrackedInfo(&l.infos, n)
}

type leakImpl struct {
	srv          wwr.Server
	conns, infos tracker
	lock         sync.Mutex
	release      chan struct{}
	nontrivial   atomic.Bool
	running      atomic.Int64
}

func (l *leakImpl) OnClientConnected(_ wwr.ConnectionOptions, conn wwr.Connection) { l.conns.add(conn) }

func (l *leakImpl) OnClientDisconnected(conn wwr.Connection, _ error) {
	if conn.HasSession() || l.running.Load() > 0 {
		l.nontrivial.Store(true)
	}
}

func (l *leakImpl) OnSignal(ctx context.Context, conn wwr.Connection, m wwr.Message) {
	l.OnRequest(ctx, conn, m)
}

func (l *leakImpl) OnRequest(_ context.Context, conn wwr.Connection, m wwr.Message) (p wwr.Payload, err error) {
	l.running.Add(1)
	defer l.running.Add(-1)
	switch string(m.Name()) {
	case "create":
		conn.CreateSession(newTrackedInfo(&l.infos, 1))
		if conn.HasSession() {
			l.nontrivial.Store(true)
		}
	case "block":
		l.lock.Lock()
		r := l.release
		l.lock.Unlock()
		<-r
	case "fail":
		return p, wwr.ErrRequest{Code: "F", Message: "failed"}
	case "close":
		conn.Close()
	case "signal":
		conn.Signal([]byte("x"), wwr.Payload{Data: []byte("y")})
	case "closeSession":
		conn.CloseSession()
	case "session":
		conn.Session()
	}
	return wwr.Payload{Data: append([]byte{}, m.Payload()...)}, nil
}

func (l *leakImpl) releaseAll() {
	l.lock.Lock()
	close(l.release)
	l.release = make(chan struct{})
	l.lock.Unlock()
}

// repoGoroutines counts the goroutines executing webwire-go
func repoGoroutines() (n int) {
	buf := make([]byte, 1<<18)
	for {
		k := runtime.Stack(buf, true)
		if k < len(buf) {
			buf = buf[:k]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range bytes.Split(buf, []byte("\n\ngoroutine ")) {
		if bytes.Contains(g, []byte("\n"+repoPkg)) {
			n++
		}
	}
	return
}

// size counts the objects and entries of containers that belong to webwire-go and are reachable from the
// given object
func size(obj interface{}) (n int) {
	type ref struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[ref]bool{}
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Pointer:
			r := ref{v.UnsafePointer(), v.Type()}
			if v.IsNil() || seen[r] {
				return
			}
			seen[r] = true
			n++
			visit(v.Elem())
		case reflect.Struct:
			// Other types such as locks, pools and loggers aren't looked into
			if pkg := v.Type().PkgPath(); pkg != "" && !strings.HasPrefix(pkg, repoPkg) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i))
			}
		case reflect.Map:
			r := ref{v.UnsafePointer(), v.Type()}
			if v.IsNil() || seen[r] {
				return
			}
			seen[r] = true
			n += v.Len()
			for it := v.MapRange(); it.Next(); {
				visit(it.Key())
				visit(it.Value())
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k <= reflect.Complex128 {
				return
			}
			if v.Kind() == reflect.Slice {
				r := ref{v.UnsafePointer(), v.Type()}
				if v.IsNil() || seen[r] {
					return
				}
				seen[r] = true
				n += v.Len()
			}
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		case reflect.Chan:
			n += v.Len()
		}
	}
	visit(reflect.ValueOf(obj))
	return
}

// vanishingTransport closes a client socket while it's dialing
type vanishingTransport struct {
	*memchan.Transport
	victim atomic.Pointer[memchan.Socket]
}

func (t *vanishingTransport) Initialize(o wwr.ServerOptions, down wwr.IsShuttingDown, onNew wwr.OnNewConnection) error {
	return t.Transport.Initialize(o, func() bool {
		if s := t.victim.Swap(nil); s != nil {
			closure := goTask(s.Close)
			// The transport may hold a lock
			for i := 0; i < 50 && !closure.isDone(); i++ {
				time.Sleep(100 * time.Microsecond)
			}
		}
		return down()
	}, onNew)
}

func runC29(c *Ctx, k c29) {
	tr := &memchan.Transport{}
	var nconn uint64
	tr.OnBeforeCreation = func() wwr.ConnectionOptions {
		n := atomic.AddUint64(&nconn, 1)
		o := wwr.ConnectionOptions{ConcurrencyLimit: k.Limit}
		if k.Refuse > 0 && n%uint64(k.Refuse) == 0 {
			o.Connection = wwr.Refuse
		}
		return o
	}
	vanishing := &vanishingTransport{Transport: tr}
	impl := &leakImpl{release: make(chan struct{})}
	keys := &raceKeys{}
	srv, err := wwr.NewServer(impl, wwr.ServerOptions{
		SessionManager:        &raceSM{sessions: map[string]wwr.SessionLookupResult{}},
		SessionKeyGenerator:   keys,
		SessionInfoParser:     impl.parse,
		MaxSessionConnections: k.MaxConns,
		WarnLog:               log.New(io.Discard, "", 0),
		ErrorLog:              log.New(io.Discard, "", 0),
		ReadTimeout:           longTimeout,
		MessageBufferSize:     256,
	}, vanishing)
	if err != nil {
		c.Failf("NewServer failed: %s", err)
	}
	impl.srv = srv
	run := goTask(srv.Run)
	c.Settle()

	socks := make([]*memchan.Socket, k.Pairs)
	for i := range socks {
		_, socks[i] = memchan.NewEntangledSockets(tr)
	}
	send := func(i int, f frame) {
		goTask(func() error {
			w, err := socks[i].GetWriter()
			if err != nil {
				return err
			}
			w.Write(f.encode())
			return w.Close()
		})
	}
	history := func() {
		if k.Fresh {
			for i := range socks {
				_, socks[i] = memchan.NewEntangledSockets(tr)
			}
		}
		first := atomic.LoadUint64(&keys.n)
		for n, o := range k.Ops {
			key := fmt.Sprintf("k%d", first+uint64(o.Arg))
			if sock := socks[o.Pair]; !sock.IsConnected() && o.Kind != "closekey" && o.Kind != "release" {
				if o.Kind == "vanish" {
					vanishing.victim.Store(sock)
				}
				if sock.Dial(time.Time{}) == nil {
					deadline := time.Time{}
					if o.Kind == "expire" {
						deadline = time.Now().Add(time.Millisecond)
					}
					goTask(func() error {
						msg := message.NewMessage(256)
						for sock.Read(msg, deadline) == nil {
							msg.Close()
						}
						return nil
					})
				}
			}
			switch o.Kind {
			case "expire":
				if !o.Fast {
					time.Sleep(2 * time.Millisecond)
				}
			case "request":
				send(o.Pair, frame{Type: tRequest, ID: idOf(uint64(n)), Name: []byte(o.Do), Payload: []byte("p" + strconv.Itoa(n))})
			case "signal":
				send(o.Pair, frame{Type: tSignal, Name: []byte(o.Do), Payload: []byte("p")})
			case "restore":
				send(o.Pair, frame{Type: tRestore, ID: idOf(uint64(n)), Payload: []byte(key)})
			case "closereq":
				send(o.Pair, frame{Type: tCloseSession, ID: idOf(uint64(n))})
			case "garbage":
				send(o.Pair, frame{Type: tReply, ID: idOf(uint64(n))})
			case "closeclt":
				socks[o.Pair].Close()
			case "closesrv":
				for i := uint64(0); i < 4; i++ {
					for _, conn := range srv.SessionConnections(fmt.Sprintf("k%d", first+i)) {
						conn.Close()
					}
				}
			case "closekey":
				goTask(func() error { srv.CloseSession(key); return nil })
			case "release":
				impl.releaseAll()
			}
			if !o.Fast {
				c.Settle()
			}
		}
		c.Settle()
		for _, s := range socks {
			s.Close()
		}
		c.Settle()
		// Messages that waited for a handler slot are handled only now
		for i := 0; i == 0 || (impl.running.Load() > 0 && i <= len(k.Ops)); i++ {
			impl.releaseAll()
			c.Settle()
		}
	}
	kinds := [...]string{
		"closed connections are still reachable",
		"session info objects are still reachable though all connections are closed",
		"goroutines are left though all connections are closed",
		"sessions are active though all connections are closed",
		"objects are referred to by the server though all connections are closed",
	}
	type usage [len(kinds)]int
	measure := func() (u usage) {
		u[2] = repoGoroutines()
		u[3] = srv.ActiveSessionsNum()
		u[4] = size(srv) + size(tr)
		for i := 0; i < 4; i++ {
			runtime.GC()
			u[0], u[1] = impl.conns.reachable(), impl.infos.reachable()
			if u[0]+u[1] == 0 {
				break
			}
		}
		return
	}
	history()
	before := measure()
	last, reps := before, 1
	growing := map[int]bool{}
	for i := range kinds {
		growing[i] = true
	}
	// What's kept for being used again, such as the buffers of a pool, grows until there's one for each
	// simultaneous user. It's a leak only if it keeps growing
	for round := 0; round < c29rounds && len(growing) > 0; round++ {
		least := c29reps / 2
		if round == 0 {
			least = c29reps - 1
		}
		for reps++; ; reps++ {
			history()
			if reps%c29reps == 0 {
				break
			}
		}
		now := measure()
		for i := range kinds {
			if now[i] < last[i]+least {
				delete(growing, i)
			}
		}
		last = now
	}
	for i, what := range kinds {
		if growing[i] {
			c.Failf("%d %s, %d after %d repetitions of the same history", before[i], what, last[i], reps)
		}
	}
	shutdown := goTask(srv.Shutdown)
	c.Settle()
	if !shutdown.isDone() || !run.isDone() {
		c.Failf("the server isn't shut down (Shutdown returned: %t, Run returned: %t)", shutdown.isDone(), run.isDone())
	}
	c.Nontrivial(impl.nontrivial.Load())
	runtime.KeepAlive(srv)
}
