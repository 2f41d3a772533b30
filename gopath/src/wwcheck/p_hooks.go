package wwcheck

import (
	"fmt"
	"net/url"
	"reflect"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C32: connections and servers tell what they are, whatever happens to others

type c32 struct {
	Addr string
	Ops  []c32op
}

type c32op struct {
	Kind  string // connect, request, signal, tell, create, closesession, close, drop
	Conn  int
	Info  map[int]string `json:",omitempty"`
	NoMap bool           `json:",omitempty"`
	Limit int            `json:",omitempty"`
	N     int            `json:",omitempty"`
}

func genInfoKey() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(-2, 6), rapid.SampledFrom([]int{100, 127, 128, 255, 256, 257, 65535, 65536,
		-128, -129, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 + 1, -1 << 31, 1<<63 - 1, -1 << 63}))
}

func init() {
	registerNoisy("C32",
		"a connection with information was looked at after another one was established or closed",
		6000, 180000,
		func(t *rapid.T) (c c32) {
			c.Addr = rapid.SampledFrom([]string{"fake://host:1", "https://example.com:8443/path?a=b#c", "", "unix:///run/x",
				"//user:pw@h"}).Draw(t, "addr")
			m := rapid.IntRange(2, 16).Draw(t, "ops")
			for i := 0; i < m; i++ {
				o := c32op{
					Kind: rapid.SampledFrom([]string{"connect", "connect", "request", "signal", "tell", "create",
						"closesession", "close", "drop"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, 4).Draw(t, "conn"),
					N:    rapid.IntRange(0, 5).Draw(t, "n"),
				}
				if i < 1 {
					o.Kind = "connect"
				}
				if o.Kind == "connect" {
					o.Limit = rapid.SampledFrom([]int{-1, 0, 1, 2, 7}).Draw(t, "limit")
					o.NoMap = rapid.IntRange(0, 4).Draw(t, "nomap") == 0
					if !o.NoMap {
						o.Info = rapid.MapOfN(genInfoKey(), rapid.SampledFrom([]string{"", "a", "nil", "ptr", "int", "map"}), 0, 4).
							Draw(t, "info")
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return
		}, runC32)
}

type c32conn struct {
	sock     *fakeSock
	conn     wwr.Connection
	info     map[int]interface{}
	opts     wwr.ConnectionOptions
	creation time.Time
	addr     string
	alive    bool
	frames   int // number of frames received
	session  string
	sessInfo map[string]interface{}
	key      string
}

func runC32(c *Ctx, k c32) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled})
	addr, err := url.Parse(k.Addr)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	w.tr.addr = addr
	var conns []*c32conn
	var mu sync.Mutex
	seen := map[int]wwr.Connection{} // by number of the socket
	var optsSeen wwr.ConnectionOptions
	handled := map[string]int{}
	var bad string
	same := func(what string, id int, conn wwr.Connection) {
		mu.Lock()
		defer mu.Unlock()
		if was := seen[id]; was != nil && was != conn {
			bad = fmt.Sprintf("%s is given another object for connection %d", what, id)
		}
		seen[id] = conn
	}
	w.impl.opts = func(id int, o wwr.ConnectionOptions) { mu.Lock(); optsSeen = o; mu.Unlock() }
	w.impl.onConnected = func(id int, conn wwr.Connection) {
		same("OnClientConnected", id, conn)
		if !conn.IsActive() {
			mu.Lock()
			bad = "a new connection isn't active"
			mu.Unlock()
		}
	}
	w.impl.onDisconnected = func(id int, conn wwr.Connection) { same("OnClientDisconnected", id, conn) }
	w.impl.onSignal = func(id int, conn wwr.Connection, m wwr.Message) {
		same("OnSignal", id, conn)
		mu.Lock()
		handled[fmt.Sprintf("%d/%s", id, m.Name())]++
		mu.Unlock()
	}
	w.impl.onRequest = func(id int, conn wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		same("OnRequest", id, conn)
		mu.Lock()
		handled[fmt.Sprintf("%d/%s", id, m.Name())]++
		mu.Unlock()
		return wwr.Payload{Data: append([]byte("re:"), m.Name()...)}, nil
	}
	w.sm.onCreated = func(conn wwr.Connection) { same("OnSessionCreated", connID(conn), conn) }

	task := func(step string, f func() error) error {
		t := goTask(f)
		c.Settle()
		w.checkPanics()
		if !t.isDone() || t.pan != nil {
			c.Failf("%s doesn't return or panicked: %v", step, t.pan)
		}
		return t.err
	}
	looked := false
	check := func(step string) {
		c.Settle()
		w.checkPanics()
		mu.Lock()
		if bad != "" {
			mu.Unlock()
			c.Failf("%s: %s", step, bad)
		}
		mu.Unlock()
		if a := w.srv.Address(); a != *addr {
			c.Failf("%s: the server's address is %q, its transport's is %q", step, a.String(), addr.String())
		}
		for i, x := range conns {
			if x.conn.IsActive() != x.alive {
				c.Failf("%s: connection %d is active: %t", step, i, !x.alive)
			}
			if got := x.conn.RemoteAddr(); got == nil || got != x.sock.RemoteAddr() {
				c.Failf("%s: the remote address of connection %d is %v instead of %v", step, i, got, x.sock.RemoteAddr())
			}
			if got := x.conn.Creation(); got != x.creation {
				c.Failf("%s: the creation time of connection %d changed from %v to %v", step, i, x.creation, got)
			}
			for key := range x.info {
				if got := x.conn.Info(key); !reflect.DeepEqual(got, x.info[key]) {
					c.Failf("%s: connection %d was accepted with information %d = %#v, it tells %#v", step, i, key, x.info[key], got)
				}
				for _, other := range []int{key + 1, -key, key & 255, key & 65535, key ^ 1} {
					if got := x.conn.Info(other); !reflect.DeepEqual(got, x.info[other]) {
						c.Failf("%s: connection %d: information %d is %#v instead of %#v", step, i, other, got, x.info[other])
					}
				}
			}
			if got := x.conn.Info(3); !reflect.DeepEqual(got, x.info[3]) {
				c.Failf("%s: connection %d: information 3 is %#v instead of %#v", step, i, got, x.info[3])
			}
			// The accessors agree with each other
			s := x.conn.Session()
			if x.conn.HasSession() != (x.session != "") || (s != nil) != (x.session != "") || x.conn.SessionKey() != x.session {
				c.Failf("%s: connection %d has session %q, HasSession: %t, Session: %v, SessionKey: %q", step, i, x.session,
					x.conn.HasSession(), s, x.conn.SessionKey())
			}
			if s != nil {
				if s.Key != x.session || !s.Creation.Equal(x.conn.SessionCreation()) || time.Since(s.Creation) > time.Hour ||
					!reflect.DeepEqual(x.conn.SessionInfo("n"), x.sessInfo["n"]) || x.conn.SessionInfo("none") != nil ||
					!reflect.DeepEqual(s.Info.Value("n"), x.sessInfo["n"]) {
					c.Failf("%s: the accessors of connection %d disagree about the session: %+v, %v, %v", step, i, s,
						x.conn.SessionCreation(), x.conn.SessionInfo("n"))
				}
				l := w.srv.SessionConnections(x.session)
				if len(l) != 1 || l[0] != x.conn || w.srv.SessionConnectionsNum(x.session) != 1 {
					c.Failf("%s: the connections of session %s are %v", step, x.session, l)
				}
			}
			if n := len(x.sock.received()); n != x.frames {
				c.Failf("%s: %d messages were sent to connection %d, it received %d", step, x.frames, i, n)
			}
			looked = looked || len(x.info) > 0 && i < len(conns)-1
		}
	}
	for i, o := range k.Ops {
		step := fmt.Sprintf("op %d (%s)", i, o.Kind)
		if o.Kind == "connect" {
			x := &c32conn{alive: true, frames: 1}
			x.opts = wwr.ConnectionOptions{ConcurrencyLimit: o.Limit}
			if !o.NoMap {
				x.opts.Info = map[int]interface{}{}
				x.info = map[int]interface{}{}
				for key, v := range o.Info {
					var val interface{} = v
					switch v {
					case "nil":
						val = nil
					case "ptr":
						val = x
					case "int":
						val = key
					case "map":
						val = map[string]int{"k": key}
					}
					x.opts.Info[key], x.info[key] = val, val
				}
			}
			before := time.Now()
			x.sock = w.tr.connect(x.opts, Faults{})
			id := x.sock.id
			if !c.Await(func() bool { return w.impl.conn(id) != nil && x.sock.isReading() }) {
				w.checkPanics()
				c.Failf("%s: the connection wasn't established", step)
			}
			after := time.Now()
			x.conn = w.impl.conn(id)
			x.creation = x.conn.Creation()
			if x.creation.Before(before) || x.creation.After(after) {
				c.Failf("%s: the connection claims to be created at %v, it was between %v and %v", step, x.creation, before, after)
			}
			mu.Lock()
			got := optsSeen
			mu.Unlock()
			if !reflect.DeepEqual(got, x.opts) {
				c.Failf("%s: OnClientConnected was given the options %+v instead of %+v", step, got, x.opts)
			}
			for _, y := range conns {
				if y.conn == x.conn {
					c.Failf("%s: two connections share one object", step)
				}
			}
			conns = append(conns, x)
			check(step)
			continue
		}
		x := conns[o.Conn%len(conns)]
		name := fmt.Sprintf("m%d", i)
		id := x.sock.id
		switch o.Kind {
		case "request", "signal":
			f := frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(name)}
			if o.Kind == "signal" {
				f = frame{Type: tSignal, Name: []byte(name)}
			}
			if !x.alive {
				break
			}
			x.sock.send(f.encode())
			c.Settle()
			mu.Lock()
			n := handled[fmt.Sprintf("%d/%s", id, name)]
			mu.Unlock()
			if n != 1 {
				c.Failf("%s: the handler was invoked %d times for connection %d", step, n, id)
			}
			if o.Kind == "request" {
				x.frames++
				l := (&peer{fakeSock: x.sock, w: w}).replies(idOf(uint64(i)))
				if len(l) != 1 || string(l[0].Payload) != "re:"+name {
					c.Failf("%s: the reply is %+v", step, l)
				}
			}
		case "tell":
			err := task(step, func() error { return x.conn.Signal([]byte(name), wwr.Payload{}) })
			if (err == nil) != x.alive {
				c.Failf("%s: signalling on a connection that's alive: %t returned %v", step, x.alive, err)
			}
			if x.alive {
				x.frames++
				l := x.sock.received()
				if f, v := decode(l[len(l)-1].data); v == invalid || string(f.Name) != name {
					c.Failf("%s: the client received %+v", step, f)
				}
			}
		case "create":
			info := mapInfo{"n": o.N}
			err := task(step, func() error { return x.conn.CreateSession(info) })
			if ok := x.alive && x.session == ""; (err == nil) != ok {
				c.Failf("%s: CreateSession returned %v (alive %t, session %q)", step, err, x.alive, x.session)
			}
			if err == nil {
				x.session, x.sessInfo = x.conn.SessionKey(), info
				x.frames++
			}
		case "closesession":
			if err := task(step, x.conn.CloseSession); err != nil {
				c.Failf("%s: CloseSession failed: %s", step, err)
			}
			if x.session != "" {
				x.frames++
			}
			x.session = ""
		case "close":
			task(step, func() error { x.conn.Close(); return nil })
			x.alive, x.session = false, ""
		case "drop":
			x.sock.drop(errAbnormal)
			c.Settle()
			x.alive, x.session = false, ""
		}
		check(step)
	}
	if n := w.srv.ActiveSessionsNum(); n != func() (n int) {
		for _, x := range conns {
			if x.session != "" {
				n++
			}
		}
		return
	}() {
		c.Failf("%d sessions are active", n)
	}
	c.Nontrivial(looked && len(conns) > 1)
	c.Class("several connections", len(conns) > 1)
}
