package wwcheck

import (
	"context"
	"fmt"
	"io"
	"log"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	requestmanager "github.com/qbeon/webwire-go/requestManager"
	"github.com/qbeon/webwire-go/transport/memchan"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C31: concurrent use of the API is free of data races, crashes and deadlocks.
//
// The harness synchronises as little as possible: every lock of its own would hide races.

type c31op struct {
	Kind  string
	Arg   int `json:",omitempty"`
	Yield int `json:",omitempty"`
}

type c31 struct {
	Files    bool // use the default session manager
	MaxConns uint
	Limits   []int
	Clients  [][]c31op
	Handlers [][]c31op
	Admins   [][]c31op
	Closed   []c31op // executed when a client disconnected
	Signals  bool    // signals are handled by the same operations
	Shutdown int     // the number of the admin task that shuts the server down, -1: none
	ReqMan   []c31op `json:",omitempty"`
	Pool     []c31op `json:",omitempty"`
}

func genC31ops(t *rapid.T, label string, kinds []string, min, max int) (l []c31op) {
	n := rapid.IntRange(min, max).Draw(t, label)
	for i := 0; i < n; i++ {
		l = append(l, c31op{
			Kind:  rapid.SampledFrom(kinds).Draw(t, label+"Kind"),
			Arg:   rapid.IntRange(0, 5).Draw(t, label+"Arg"),
			Yield: rapid.SampledFrom([]int{0, 0, 0, 1, 3, 20}).Draw(t, label+"Yield"),
		})
	}
	return
}

func init() {
	connKinds := []string{"signal", "signal", "create", "create", "closeSession", "session", "session", "info", "key",
		"state", "num", "conns", "closeByKey"}
	registerNoisy("C31",
		"at least two connections and one administrator used the server, and a session was created",
		1500, 45000,
		func(t *rapid.T) (c c31) {
			c.Files = rapid.IntRange(0, 3).Draw(t, "files") == 0
			c.MaxConns = rapid.SampledFrom([]uint{0, 1, 2}).Draw(t, "max")
			n := rapid.IntRange(1, 4).Draw(t, "clients")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 1, 2}).Draw(t, "limit"))
				c.Clients = append(c.Clients, genC31ops(t, "client", []string{"request", "request", "request", "request", "request", "signal",
					"signal", "restore", "restore", "restore", "closeReq", "heartbeat", "garbage", "close", "reconnect"}, 1, 14))
			}
			h := rapid.IntRange(1, 5).Draw(t, "handlers")
			for i := 0; i < h; i++ {
				c.Handlers = append(c.Handlers, genC31ops(t, "handler", append(connKinds, "create", "create", "fail", "close"), 0, 5))
			}
			a := rapid.SampledFrom([]int{2, 1, 3, 0, 2, 3}).Draw(t, "admins")
			for i := 0; i < a; i++ {
				c.Admins = append(c.Admins, genC31ops(t, "admin", append(connKinds, "active", "closeConn"), 1, 12))
			}
			c.Closed = genC31ops(t, "closed", []string{"session", "state", "signal", "num", "conns", "key"}, 0, 2)
			c.Signals = rapid.Bool().Draw(t, "signals")
			c.Shutdown = rapid.IntRange(-2, a-1).Draw(t, "shutdown")
			if rapid.IntRange(0, 3).Draw(t, "reqman") == 0 {
				c.ReqMan = genC31ops(t, "reqs", []string{"fulfill", "fail", "cancel", "pending"}, 1, 12)
			}
			if rapid.IntRange(0, 3).Draw(t, "pool") == 0 {
				c.Pool = genC31ops(t, "pool", []string{"use", "abandon"}, 1, 12)
			}
			return
		}, runC31)
}

// raceSM is an in-memory session manager
type raceSM struct {
	lock     sync.Mutex
	sessions map[string]wwr.SessionLookupResult
}

func (s *raceSM) OnSessionCreated(conn wwr.Connection) error {
	sess := conn.Session()
	if sess == nil {
		return nil
	}
	res := wwr.NewSessionLookupResult(sess.Creation, sess.LastLookup, wwr.SessionInfoToVarMap(sess.Info))
	s.lock.Lock()
	s.sessions[sess.Key] = res
	s.lock.Unlock()
	return nil
}

func (s *raceSM) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	s.lock.Lock()
	defer s.lock.Unlock()
	if r, ok := s.sessions[key]; ok {
		return r, nil
	}
	return nil, nil
}

func (s *raceSM) OnSessionClosed(key string) error {
	s.lock.Lock()
	delete(s.sessions, key)
	s.lock.Unlock()
	return nil
}

type raceKeys struct{ n uint64 }

func (g *raceKeys) Generate() string {
	return fmt.Sprintf("k%d", atomic.AddUint64(&g.n, 1)-1)
}

type raceImpl struct {
	k       *c31
	srv     wwr.Server
	lock    sync.Mutex
	conns   []wwr.Connection
	created uint64
	active  int64
	handled uint64
}

func (r *raceImpl) OnClientConnected(_ wwr.ConnectionOptions, conn wwr.Connection) {
	r.lock.Lock()
	r.conns = append(r.conns, conn)
	r.lock.Unlock()
}

func (r *raceImpl) OnClientDisconnected(conn wwr.Connection, _ error) {
	for _, o := range r.k.Closed {
		r.exec(o, conn)
	}
}

func (r *raceImpl) handle(conn wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	n, _ := strconv.Atoi(string(m.Name()))
	var fail error
	for _, o := range r.k.Handlers[n%len(r.k.Handlers)] {
		if o.Kind == "fail" {
			fail = wwr.ErrRequest{Code: "F", Message: "failed"}
			continue
		}
		r.exec(o, conn)
	}
	if fail != nil {
		return wwr.Payload{}, fail
	}
	return wwr.Payload{Encoding: m.PayloadEncoding(), Data: append([]byte{}, m.Payload()...)}, nil
}

func (r *raceImpl) OnSignal(_ context.Context, conn wwr.Connection, m wwr.Message) {
	if r.k.Signals {
		r.handle(conn, m)
	}
}

func (r *raceImpl) OnRequest(_ context.Context, conn wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	atomic.AddUint64(&r.handled, 1)
	return r.handle(conn, m)
}

// conn returns one of the connections established so far
func (r *raceImpl) conn(i int) wwr.Connection {
	r.lock.Lock()
	defer r.lock.Unlock()
	if len(r.conns) < 1 {
		return nil
	}
	return r.conns[i%len(r.conns)]
}

func yieldN(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func (r *raceImpl) exec(o c31op, conn wwr.Connection) {
	yieldN(o.Yield)
	key := fmt.Sprintf("k%d", o.Arg)
	switch o.Kind {
	case "signal":
		conn.Signal([]byte("sig"), wwr.Payload{Data: []byte("payload")})
	case "create":
		if conn.CreateSession(mapInfo{"n": o.Arg, "l": []interface{}{"x"}}) == nil {
			atomic.AddUint64(&r.created, 1)
		}
	case "closeSession":
		conn.CloseSession()
	case "session":
		if s := conn.Session(); s != nil {
			// It's a copy
			s.Key += "x"
			s.LastLookup = time.Time{}
			if s.Info != nil {
				for _, f := range s.Info.Fields() {
					s.Info.Value(f)
				}
			}
		}
	case "info":
		conn.SessionInfo("n")
		conn.SessionInfo("nothing")
	case "key":
		conn.SessionKey()
		conn.SessionCreation()
	case "state":
		conn.IsActive()
		conn.HasSession()
		conn.Creation()
		conn.Info(1)
		conn.RemoteAddr()
	case "num":
		r.srv.SessionConnectionsNum(key)
		r.srv.ActiveSessionsNum()
	case "conns":
		for _, c := range r.srv.SessionConnections(key) {
			c.SessionKey()
			c.IsActive()
		}
	case "closeByKey":
		r.srv.CloseSession(key)
	case "active":
		r.srv.ActiveSessionsNum()
	case "close", "closeConn":
		if o.Arg < 3 {
			conn.Close()
		}
	}
}

func runC31(c *Ctx, k c31) {
	tr := &memchan.Transport{}
	var nconn uint64
	tr.OnBeforeCreation = func() wwr.ConnectionOptions {
		i := atomic.AddUint64(&nconn, 1)
		return wwr.ConnectionOptions{ConcurrencyLimit: k.Limits[int(i)%len(k.Limits)], Info: map[int]interface{}{1: i}}
	}
	impl := &raceImpl{k: &k}
	opts := wwr.ServerOptions{
		SessionKeyGenerator:   &raceKeys{},
		MaxSessionConnections: k.MaxConns,
		WarnLog:               log.New(io.Discard, "", 0),
		ErrorLog:              log.New(io.Discard, "", 0),
		ReadTimeout:           longTimeout,
		MessageBufferSize:     256,
	}
	if k.Files {
		opts.SessionManager = wwr.NewDefaultSessionManager(c.TempDir() + "/sessions")
	} else {
		opts.SessionManager = &raceSM{sessions: map[string]wwr.SessionLookupResult{}}
	}
	srv, err := wwr.NewServer(impl, opts, tr)
	if err != nil {
		c.Failf("NewServer failed: %s", err)
	}
	impl.srv = srv
	type named struct {
		*task
		name string
	}
	var tasks []named
	start := func(name string, f func() error) { tasks = append(tasks, named{goTask(f), name}) }
	start("Run", srv.Run)
	c.Settle()

	// Clients
	socks := make([]*memchan.Socket, len(k.Clients))
	for i := range socks {
		_, socks[i] = memchan.NewEntangledSockets(tr)
	}
	listen := func(i int) {
		if socks[i].Dial(time.Time{}) != nil {
			return
		}
		go func() {
			msg := message.NewMessage(256)
			for socks[i].Read(msg, time.Time{}) == nil {
				msg.Close()
			}
		}()
	}
	for i := range socks {
		start(fmt.Sprintf("client %d", i), func() error {
			listen(i)
			send := func(b []byte) {
				w, err := socks[i].GetWriter()
				if err != nil {
					return
				}
				w.Write(b)
				w.Close()
			}
			for n, o := range k.Clients[i] {
				yieldN(o.Yield)
				id := idOf(uint64(n))
				switch o.Kind {
				case "request":
					send(frame{Type: tRequest, ID: id, Name: []byte(strconv.Itoa(o.Arg)), Payload: []byte("pay")}.encode())
				case "signal":
					send(frame{Type: tSignal, Name: []byte(strconv.Itoa(o.Arg)), Payload: []byte("pay")}.encode())
				case "restore":
					send(frame{Type: tRestore, ID: id, Payload: []byte(fmt.Sprintf("k%d", o.Arg))}.encode())
				case "closeReq":
					send(frame{Type: tCloseSession, ID: id}.encode())
				case "heartbeat":
					send(frame{Type: tHeartbeat}.encode())
				case "garbage":
					send([]byte{200, 1, 2})
				case "close":
					socks[i].Close()
				case "reconnect":
					socks[i].Close()
					listen(i)
				}
			}
			return nil
		})
	}
	for i, ops := range k.Admins {
		start(fmt.Sprintf("administrator %d", i), func() error {
			for n, o := range ops {
				if conn := impl.conn(o.Arg + n); conn != nil {
					impl.exec(o, conn)
				}
				yieldN(3)
			}
			if i == k.Shutdown {
				return srv.Shutdown()
			}
			return nil
		})
	}
	if k.ReqMan != nil {
		mng := requestmanager.NewRequestManager()
		for n, o := range k.ReqMan {
			start(fmt.Sprintf("request %d", n), func() error {
				r := mng.Create()
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				go func() {
					yieldN(o.Yield)
					switch o.Kind {
					case "fulfill":
						mng.Fulfill(replyMsg(r.Identifier, 0, []byte("x")))
					case "fail":
						mng.Fail(r.Identifier, errFailed)
					case "pending":
						mng.IsPending(r.Identifier)
						mng.PendingRequests()
						mng.Fulfill(replyMsg(r.Identifier, 0, []byte("x")))
					default:
						cancel()
					}
				}()
				if rep, err := r.AwaitReply(ctx); err == nil {
					if string(rep.Payload()) != "x" {
						return fmt.Errorf("the payload of the reply is %q", rep.Payload())
					}
					rep.Close()
				}
				return nil
			})
		}
	}
	if k.Pool != nil {
		pool := message.NewSyncPool(64, 8)
		for n, o := range k.Pool {
			start(fmt.Sprintf("user of the pool %d", n), func() error {
				want := frame{Type: tSignal, Name: []byte(strconv.Itoa(n)), Payload: []byte(strings.Repeat("x", n+1))}.encode()
				for i := 0; i < 3; i++ {
					m := pool.Get()
					if ok, err := m.ReadBytes(want); !ok || err != nil {
						return fmt.Errorf("a legal message was refused: %v", err)
					}
					yieldN(o.Yield)
					if string(m.MsgBuffer.Data()) != string(want) {
						return fmt.Errorf("the message was modified by another user of the pool")
					}
					if o.Kind == "use" {
						m.Close()
					}
				}
				return nil
			})
		}
	}
	c.Settle()
	for _, t := range tasks {
		if t.name != "Run" && !t.isDone() {
			c.Failf("%s is stuck", t.name)
		}
	}
	start("Shutdown", srv.Shutdown)
	c.Settle()
	for _, s := range socks {
		s.Close()
	}
	c.Settle()
	for _, t := range tasks {
		if !t.isDone() {
			c.Failf("%s is stuck", t.name)
		}
		if t.pan != nil {
			c.Failf("%s panicked: %v", t.name, t.pan)
		}
		if t.err != nil {
			c.Failf("%s failed: %v", t.name, t.err)
		}
	}
	c.Nontrivial(len(k.Clients) > 1 && len(k.Admins) > 0 && atomic.LoadUint64(&impl.created) > 0)
	c.Class("sessions created", atomic.LoadUint64(&impl.created) > 0)
	c.Class("shutdown while in use", k.Shutdown >= 0)
	c.Class("default session manager", k.Files)
}
