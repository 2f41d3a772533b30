package wwcheck

import (
	"fmt"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C33: hooks and handlers delay nobody else and may use the entire API

type c33 struct {
	Limits []int
	Max    uint
	Acts   map[string][]c33act `json:",omitempty"` // what the hooks do, by hook
	Ops    []c33op
}

type c33act struct {
	Do   string
	Conn int // -1: the connection the hook is invoked for
	Key  int
}

type c33op struct {
	Kind string
	Conn int
	Key  int
	Arm  string `json:",omitempty"` // the hook that's going to block
	Pick int
}

// c33hooks are the hooks, those from "parser" on aren't given a connection
var c33hooks = []string{"connected", "disconnected", "request", "signal", "created", "parser", "lookup", "closed"}

func init() {
	registerNoisy("C33",
		"the API was used while a hook was blocked, or by a hook",
		2400, 72000,
		func(t *rapid.T) (c c33) {
			n := rapid.IntRange(1, 3).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 2, 3}).Draw(t, "limit"))
			}
			c.Max = rapid.SampledFrom([]uint{0, 0, 2}).Draw(t, "max")
			if rapid.Bool().Draw(t, "acting") {
				c.Acts = map[string][]c33act{}
				m := rapid.IntRange(1, 4).Draw(t, "acts")
				for i := 0; i < m; i++ {
					h := rapid.SampledFrom(c33hooks).Draw(t, "hook")
					c.Acts[h] = append(c.Acts[h], c33act{
						Do: rapid.SampledFrom([]string{"tell", "accessors", "closesession", "close", "create", "queries",
							"closekey", "closekey"}).Draw(t, "do"),
						Conn: rapid.IntRange(-1, n-1).Draw(t, "conn"),
						Key:  rapid.IntRange(0, 3).Draw(t, "key"),
					})
				}
			}
			m := rapid.IntRange(2, 10).Draw(t, "ops")
			for i := 0; i < m; i++ {
				o := c33op{
					Kind: rapid.SampledFrom([]string{"request", "signal", "create", "create", "restore", "restore", "closesrv",
						"closecli", "closekey", "drop", "close", "reconnect", "release"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
					Key:  rapid.IntRange(0, 3).Draw(t, "key"),
					Pick: rapid.IntRange(0, 3).Draw(t, "pick"),
				}
				if rapid.IntRange(0, 2).Draw(t, "arm") > 0 {
					o.Arm = map[string]string{"request": "request", "signal": "signal", "create": "created", "restore": "lookup",
						"closesrv": "closed", "closecli": "closed", "closekey": "closed", "drop": "disconnected",
						"close": "disconnected", "reconnect": "connected"}[o.Kind]
					if o.Kind == "restore" && o.Pick > 1 {
						o.Arm = "parser"
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return
		}, runC33)
}

func runC33(c *Ctx, k c33) {
	const budget = 14 // number of actions executed by hooks at most
	var mu sync.Mutex
	armed := ""
	used, acted := 0, false
	quiet := false               // hooks don't act
	parked := map[int64]string{} // the goroutines blocked by hooks
	var acting func(hook string, conn wwr.Connection)
	var w *world
	enter := func(hook string, conn wwr.Connection) {
		acting(hook, conn)
		mu.Lock()
		block := armed == hook
		if block {
			armed = ""
			parked[goid()] = hook
		}
		mu.Unlock()
		if block {
			w.sched.Point("hook", hook)
			mu.Lock()
			delete(parked, goid())
			mu.Unlock()
		}
	}
	w = newWorld(c, worldOpts{Sessions: wwr.Enabled, MaxConns: k.Max,
		Parser: func(m map[string]interface{}) wwr.SessionInfo {
			enter("parser", nil)
			return wwr.GenericSessionInfoParser(m)
		}}, "hook")
	impl := w.impl
	impl.onConnected = func(_ int, conn wwr.Connection) { enter("connected", conn) }
	impl.onDisconnected = func(_ int, conn wwr.Connection) { enter("disconnected", conn) }
	impl.onSignal = func(_ int, conn wwr.Connection, _ wwr.Message) { enter("signal", conn) }
	impl.onRequest = func(_ int, conn wwr.Connection, _ wwr.Message) (wwr.Payload, error) {
		enter("request", conn)
		return wwr.Payload{Data: []byte("re")}, nil
	}
	w.sm.onCreated = func(conn wwr.Connection) { enter("created", conn) }
	w.sm.onLookup = func(string) { enter("lookup", nil) }
	w.sm.onClosed = func(string) { enter("closed", nil) }

	now := time.Now()
	keys := []string{"s0", "s1", "b"}
	for _, key := range keys {
		w.sm.put(key, stored{now, now, map[string]interface{}{"n": 1}})
	}
	keyOf := func(i int) string {
		if i < 2 {
			return keys[i]
		}
		return fmt.Sprintf("key%d", i-2)
	}
	acting = func(string, wwr.Connection) {}
	var pmu sync.Mutex
	var peers []*peer
	for _, l := range k.Limits {
		peers = append(peers, w.connect(l))
	}
	all := append([]*peer{}, peers...)
	peerAt := func(i int) *peer {
		pmu.Lock()
		defer pmu.Unlock()
		return peers[i]
	}
	by := w.connect(0)
	all = append(all, by)
	accessors := func(conn wwr.Connection) {
		conn.IsActive()
		conn.HasSession()
		conn.Session()
		conn.SessionKey()
		conn.SessionCreation()
		conn.SessionInfo("n")
		conn.RemoteAddr()
		conn.Info(1)
		conn.Creation()
	}
	queries := func() {
		w.srv.ActiveSessionsNum()
		for i := 0; i < 4; i++ {
			w.srv.SessionConnections(keyOf(i))
			w.srv.SessionConnectionsNum(keyOf(i))
		}
		w.srv.Address()
	}
	acting = func(hook string, conn wwr.Connection) {
		if conn == by.conn {
			return
		}
		for _, a := range k.Acts[hook] {
			mu.Lock()
			if quiet {
				mu.Unlock()
				return
			}
			used++
			ok := used <= budget
			acted = acted || ok
			mu.Unlock()
			if !ok {
				return
			}
			target := conn
			if a.Conn >= 0 || target == nil {
				target = peerAt(max(a.Conn, 0)).conn
			}
			switch a.Do {
			case "tell":
				target.Signal([]byte("told"), wwr.Payload{})
			case "accessors":
				accessors(target)
			case "closesession":
				target.CloseSession()
			case "close":
				target.Close()
			case "create":
				target.CreateSession(mapInfo{"n": 1})
			case "queries":
				queries()
			case "closekey":
				w.srv.CloseSession(keyOf(a.Key))
			}
		}
	}

	type run struct {
		t    *task
		what string
		id   int64
	}
	var runs []*run
	start := func(what string, f func()) *run {
		r := &run{what: what}
		r.t = goTask(func() error {
			mu.Lock()
			r.id = goid()
			mu.Unlock()
			f()
			return nil
		})
		runs = append(runs, r)
		return r
	}
	var req uint64
	type asked struct {
		p  *peer
		id uint64
	}
	var requests []asked
	ask := func(p *peer, f frame) uint64 {
		req++
		f.ID = idOf(req)
		p.send(f.encode())
		requests = append(requests, asked{p, req})
		return req
	}
	settled := func(step string) {
		c.Settle()
		w.checkPanics()
		mu.Lock()
		defer mu.Unlock()
		for _, r := range runs {
			if r.t.pan != nil {
				c.Failf("%s: %s panicked: %v", step, r.what, r.t.pan)
			}
			if !r.t.isDone() && parked[r.id] == "" {
				c.Failf("%s: %s doesn't return although it isn't its hook that's blocked (blocked: %v)", step, r.what, w.sched.Parked())
			}
		}
	}
	probed, last := false, ""
	probe := func(step string) {
		mu.Lock()
		armed = ""
		blocked := len(parked) > 0 && fmt.Sprint(parked) != last
		last = fmt.Sprint(parked)
		quiet = blocked
		mu.Unlock()
		if !blocked {
			return
		}
		defer func() { mu.Lock(); quiet = false; mu.Unlock() }()
		probed = true
		step += fmt.Sprintf(" while %v are blocked", w.sched.Parked())
		start("querying the server", queries)
		for i, p := range all {
			p := p
			start(fmt.Sprintf("looking at connection %d", i), func() { accessors(p.conn) })
			start(fmt.Sprintf("signalling on connection %d", i), func() { p.conn.Signal([]byte("x"), wwr.Payload{}) })
		}
		settled(step)
		// Others are served as usual
		serve := func(what string, f frame, want byte) {
			id := ask(by, f)
			settled(step)
			if l := by.replies(idOf(id)); len(l) != 1 || l[0].Type != want && !(want == tReply && isReply(l[0].Type)) {
				c.Failf("%s: %s on another connection is replied to with %+v", step, what, l)
			}
		}
		serve("a request", frame{Type: tRequest, Name: []byte("echo")}, tReply)
		serve("restoring a session", frame{Type: tRestore, Payload: []byte("b")}, tReply)
		if by.conn.SessionKey() != "b" {
			c.Failf("%s: another connection couldn't restore its session", step)
		}
		serve("closing a session", frame{Type: tCloseSession}, tReply)
		w.sm.put("b", stored{now, now, map[string]interface{}{"n": 1}})
		start("creating a session on another connection", func() { by.conn.CreateSession(mapInfo{"n": 2}) })
		settled(step)
		if !by.conn.HasSession() {
			c.Failf("%s: creating a session on another connection failed", step)
		}
		start("closing the session of another connection", func() { by.conn.CloseSession() })
		settled(step)
		// New connections are accepted and released
		s := w.tr.connect(wwr.ConnectionOptions{}, Faults{})
		settled(step)
		if w.impl.conn(s.id) == nil || !s.isReading() {
			c.Failf("%s: no connection is accepted", step)
		}
		s.drop(errClosed)
		settled(step)
		if w.impl.numDisconnected(s.id) != 1 {
			c.Failf("%s: the closure of another connection isn't noticed", step)
		}
	}
	for i, o := range k.Ops {
		step := fmt.Sprintf("op %d (%s)", i, o.Kind)
		p := peers[o.Conn]
		mu.Lock()
		armed = o.Arm
		mu.Unlock()
		switch o.Kind {
		case "request":
			ask(p, frame{Type: tRequest, Name: []byte("r")})
		case "signal":
			p.send(frame{Type: tSignal, Name: []byte("s")}.encode())
		case "restore":
			ask(p, frame{Type: tRestore, Payload: []byte(keyOf(o.Key))})
		case "closecli":
			ask(p, frame{Type: tCloseSession})
		case "create":
			start(step, func() { p.conn.CreateSession(mapInfo{"n": 1}) })
		case "closesrv":
			start(step, func() { p.conn.CloseSession() })
		case "closekey":
			start(step, func() { w.srv.CloseSession(keyOf(o.Key)) })
		case "drop":
			p.drop(errAbnormal)
		case "close":
			start(step, p.conn.Close)
		case "reconnect":
			if !p.isClosed() {
				break
			}
			s := w.tr.connect(wwr.ConnectionOptions{ConcurrencyLimit: k.Limits[o.Conn]}, Faults{})
			c.Settle()
			conn := w.impl.conn(s.id)
			if conn == nil {
				w.checkPanics()
				c.Failf("%s: the connection isn't accepted", step)
			}
			n := &peer{fakeSock: s, w: w, conn: conn}
			pmu.Lock()
			peers[o.Conn] = n
			pmu.Unlock()
			all = append(all, n)
		case "release":
			w.sched.Release(o.Pick)
		}
		settled(step)
		probe(step)
	}
	for i := 0; w.sched.Release(i) != ""; i++ {
		settled("the end")
		probe("the end")
	}
	settled("the end")
	for _, r := range runs {
		if !r.t.isDone() {
			c.Failf("%s never returns", r.what)
		}
	}
	for i, p := range all {
		p.mu.Lock()
		served := p.served
		p.mu.Unlock()
		if served != p.isClosed() || (!served && !p.isReading()) {
			c.Failf("connection %d: closed %t, serving it ended: %t, messages are read: %t", i, p.isClosed(), served, p.isReading())
		}
		if n := w.impl.numDisconnected(p.id); (n == 1) != served || n > 1 {
			c.Failf("connection %d: OnClientDisconnected was invoked %d times", i, n)
		}
	}
	for _, r := range requests {
		if l := r.p.replies(idOf(r.id)); len(l) > 1 || len(l) == 0 && !r.p.isClosed() {
			c.Failf("request %d on connection %d was replied to %d times", r.id, r.p.id, len(l))
		}
	}
	names := append([]string{}, keys...)
	for i := 0; i < 40; i++ {
		names = append(names, fmt.Sprintf("key%d", i))
	}
	checkSessions(c, w, all, names, nil)
	w.checkWriters()
	c.Nontrivial(probed || acted)
	c.Class("API used while a hook was blocked", probed)
	c.Class("API used by a hook", acted)
}
