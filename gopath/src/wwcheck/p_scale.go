package wwcheck

import (
	"fmt"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// The guarantees don't depend on how much there is of anything: a few cases of several checks are about
// crowds of handlers and connections or connections that have been in use for long.

// genRarely returns true once in a while
func genRarely(t *rapid.T, label string) bool { return rapid.IntRange(0, 39).Draw(t, label) == 17 }

// genMany draws a number of things that are many
func genMany(t *rapid.T, label string) int {
	return rapid.OneOf(rapid.IntRange(5, 40),
		rapid.SampledFrom([]int{64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 270, 300})).Draw(t, label)
}

// ---------------------------------------------------------------------------------------------
// Connections that have been in use for long

const agingName = "ww-aging-4711"

// genAge draws the number of messages every connection has transmitted beforehand
func genAge(t *rapid.T) int {
	if !genRarely(t, "aged") {
		return 0
	}
	return rapid.SampledFrom([]int{100, 130, 260, 300, 520, 1100, 1100, 2100, 5000}).Draw(t, "age")
}

// age transmits a number of messages of all kinds and awaits all replies. Afterwards, it's as if the
// connection was a new one
func (p *peer) age(n int) {
	w := p.w
	before := len(p.received())
	reqs := 0
	for i := 0; i < n; i++ {
		var f frame
		switch id := idOf(uint64(1<<48 + i)); i % 7 {
		case 0, 3, 5:
			f = frame{Type: tRequest, ID: id, Name: []byte(agingName)}
		case 1, 4:
			f = frame{Type: tSignal, Name: []byte(agingName)}
		case 2:
			f = frame{Type: tHeartbeat}
		case 6:
			f = frame{Type: tCloseSession, ID: id}
		}
		if f.Type == tRequest || f.Type == tCloseSession {
			reqs++
		}
		p.send(f.encode())
	}
	replies := func() int { return len(p.received()) - before }
	w.c.Await(func() bool { return replies() >= reqs && p.pendingIn() == 0 && p.isReading() })
	w.c.Settle()
	w.checkPanics()
	if p.isClosed() {
		w.c.Failf("connection %d was closed after %d messages", p.id, n)
	}
	if r := replies(); r != reqs {
		w.c.Failf("connection %d: %d requests were sent and replied to %d times", p.id, reqs, r)
	}
	if !p.isReading() || p.pendingIn() > 0 {
		w.c.Failf("connection %d isn't served any more after %d messages", p.id, n)
	}
	p.mu.Lock()
	p.frames = p.frames[:before]
	p.mu.Unlock()
}

// ---------------------------------------------------------------------------------------------
// Crowds of handlers

type handlerCrowd struct {
	Conns int
	Limit int // of each connection
	N     int // messages sent to all of the connections
	Sig   int // every so many messages is a signal
	How   string
	Steps []int // numbers of handlers released in succession
}

func genHandlerCrowd(t *rapid.T, hows ...string) *handlerCrowd {
	k := &handlerCrowd{Conns: 1, Limit: -1, N: genMany(t, "crowd"), Sig: rapid.IntRange(2, 5).Draw(t, "sig")}
	k.How = rapid.SampledFrom(hows).Draw(t, "how")
	if rapid.IntRange(0, 3).Draw(t, "isLimited") == 2 {
		k.Limit = rapid.IntRange(1, k.N+2).Draw(t, "crowdLimit")
	}
	if k.How == "shutdown" {
		k.Conns = rapid.SampledFrom([]int{1, 2, 3, 10, 40}).Draw(t, "crowdConns")
		k.N += rapid.SampledFrom([]int{0, 0, 256}).Draw(t, "crowdMore")
	}
	k.Steps = rapid.SliceOfN(rapid.IntRange(1, k.N), 1, 4).Draw(t, "steps")
	return k
}

// runHandlerCrowd closes a connection or shuts the server down while lots of handlers are running
func runHandlerCrowd(c *Ctx, k handlerCrowd) {
	w := newWorld(c, worldOpts{Sessions: wwr.Disabled}, "handler")
	var mu sync.Mutex
	handled := map[string]int{}
	handle := func(m wwr.Message) {
		name := string(m.Name())
		mu.Lock()
		handled[name]++
		mu.Unlock()
		w.sched.Point("handler", name)
	}
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		handle(m)
		return wwr.Payload{Data: []byte("done")}, nil
	}
	w.impl.onSignal = func(_ int, _ wwr.Connection, m wwr.Message) { handle(m) }
	var peers []*peer
	for i := 0; i < k.Conns; i++ {
		peers = append(peers, w.connect(k.Limit))
	}
	run := &task{}
	if k.How == "shutdown" {
		run = goTask(w.srv.Run)
	}
	msgs := make([]int, k.Conns)
	for i := 0; i < k.N; i++ {
		f := frame{Type: tRequest, ID: idOf(uint64(i)), Name: []byte(fmt.Sprintf("m%05d", i))}
		if i%k.Sig == 1 {
			f = frame{Type: tSignal, Name: f.Name}
		}
		peers[i%k.Conns].send(f.encode())
		msgs[i%k.Conns]++
	}
	c.Settle()
	w.checkPanics()
	begun := 0
	for _, n := range msgs {
		if k.Limit > 0 && n > k.Limit {
			n = k.Limit
		}
		begun += n
	}
	running := func() int { return w.sched.Count("handler", "") }
	if n := running(); n != begun {
		c.Failf("%d messages on %d connections limited to %d: %d handlers are running", k.N, k.Conns, k.Limit, n)
	}
	first := map[string]bool{} // names of the messages being handled
	mu.Lock()
	for name := range handled {
		first[name] = true
	}
	mu.Unlock()
	var t *task
	switch k.How {
	case "close":
		t = goTask(func() error { peers[0].conn.Close(); return nil })
	case "drop":
		peers[0].drop(errAbnormal)
	case "shutdown":
		t = goTask(w.srv.Shutdown)
	}
	check := func(step string) {
		c.Settle()
		w.checkPanics()
		left := running()
		w.tr.mu.Lock()
		calls := w.tr.shutdownCalls
		w.tr.mu.Unlock()
		for ci, p := range peers {
			p.mu.Lock()
			closeCalls, closed := p.closeCalls, p.closed != nil
			p.mu.Unlock()
			disc := w.impl.numDisconnected(ci)
			switch {
			case left > 0 && closeCalls > 0:
				c.Failf("%s: the socket was closed though %d of %d handlers are running", step, left, begun)
			case left > 0 && disc > 0 && k.How != "drop":
				c.Failf("%s: OnClientDisconnected was invoked though %d of %d handlers are running", step, left, begun)
			case disc > 1:
				c.Failf("%s: OnClientDisconnected was invoked %d times", step, disc)
			case left == 0 && (!closed || disc != 1):
				c.Failf("%s: all of %d handlers returned, but connection %d isn't closed: OnClientDisconnected was invoked %d times",
					step, begun, ci, disc)
			case left == 0 && k.How != "shutdown" && closeCalls != 1:
				c.Failf("%s: the socket was closed %d times", step, closeCalls)
			}
			if (k.How == "close" || k.How == "drop" && disc > 0) && p.conn.IsActive() {
				c.Failf("%s: the closed connection is active", step)
			}
		}
		if k.How != "shutdown" {
			if calls > 0 || run.isDone() || t != nil && (!t.isDone() || t.pan != nil) {
				c.Failf("%s: the server was shut down: %t, closing the connection: %+v", step, calls > 0, t)
			}
			return
		}
		if left > 0 && (calls > 0 || t.isDone() || run.isDone()) {
			c.Failf("%s: the server was shut down (Shutdown returned %t, Run returned %t) though %d of %d handlers are running",
				step, t.isDone(), run.isDone(), left, begun)
		}
		if left == 0 && (calls != 1 || !t.isDone() || !run.isDone() || t.err != nil || t.pan != nil) {
			c.Failf("%s: all of %d handlers returned, but the server isn't shut down: %+v", step, begun, t)
		}
	}
	check(k.How)
	for i := 0; running() > 0; i++ {
		n := 1
		if i < len(k.Steps) {
			n = k.Steps[i]
		}
		if i > len(k.Steps) {
			n = running()
		}
		if n >= running() && running() > 1 {
			n = running() - 1 // the last one on its own
		}
		for ; n > 0; n-- {
			w.sched.Release(i * 7)
		}
		check(fmt.Sprintf("release %d", i))
	}
	mu.Lock()
	defer mu.Unlock()
	for i := 0; i < k.N; i++ {
		name := fmt.Sprintf("m%05d", i)
		n := handled[name]
		if n > 1 || n > 0 && !first[name] && k.How != "drop" {
			c.Failf("message %s was handled %d times, before the closure: %t", name, n, first[name])
		}
		l := peers[i%k.Conns].replies(idOf(uint64(i)))
		switch {
		case i%k.Sig == 1 && len(l) > 0:
			c.Failf("signal %s was replied to: %+v", name, l)
		case i%k.Sig == 1 || k.How == "drop":
		case n == 1 && (len(l) != 1 || l[0].Type != tReply):
			c.Failf("the reply of request %s that was handled until the end is %+v", name, l)
		case n == 0 && (len(l) > 1 || len(l) == 1 && l[0].Type != tReplyShutdown):
			c.Failf("unhandled request %s was replied to with %+v", name, l)
		}
	}
	w.checkWriters()
	c.Nontrivial(true)
	c.Class("a crowd of handlers", true)
}

// ---------------------------------------------------------------------------------------------
// Crowds of connections using a session

type sessionCrowd struct {
	Conns  int
	Max    uint
	Leave  []int  // numbers of connections leaving the session in succession
	How    string // they leave
	All    bool   // all of them leave rather than the session being closed at once
	Rounds int
}

func genSessionCrowd(t *rapid.T) *sessionCrowd {
	k := &sessionCrowd{Conns: genMany(t, "crowd"), Rounds: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "rounds")}
	if rapid.IntRange(0, 2).Draw(t, "isMax") > 0 {
		k.Max = uint(genMany(t, "crowdMax"))
	}
	k.How = rapid.SampledFrom([]string{"drop", "close", "closesrv", "closecli"}).Draw(t, "how")
	k.Leave = rapid.SliceOfN(rapid.IntRange(1, k.Conns), 0, 2).Draw(t, "leave")
	k.All = rapid.Bool().Draw(t, "all")
	return k
}

func runSessionCrowd(c *Ctx, k sessionCrowd, aspect string) {
	is := func(a string) bool { return aspect == "all" || aspect == a }
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled, MaxConns: k.Max})
	now := time.Now()
	var peers []*peer
	req := uint64(0)
	for round := 0; round < k.Rounds; round++ {
		key := fmt.Sprintf("s%d", round)
		w.sm.put(key, stored{now, now, nil})
		for len(peers) < k.Conns {
			peers = append(peers, w.connect([]int{-1, 0, 3}[len(peers)%3]))
		}
		users := map[int]bool{}
		// restore makes all other connections restore the session
		restore := func(step string) {
			step = fmt.Sprintf("round %d: %s", round, step)
			at := map[int]uint64{}
			for i, p := range peers {
				if !users[i] {
					req++
					at[i] = req
					p.send(frame{Type: tRestore, ID: idOf(req), Payload: []byte(key)}.encode())
				}
			}
			c.Settle()
			w.checkPanics()
			want := k.Conns - len(users)
			if free := int(k.Max) - len(users); k.Max > 0 && want > free {
				want = free
			}
			ok := 0
			for i, id := range at {
				l := peers[i].replies(idOf(id))
				if len(l) != 1 {
					c.Failf("%s: %d replies to the restoration by connection %d", step, len(l), i)
				}
				has := peers[i].conn.SessionKey() == key
				switch {
				case has && isReply(l[0].Type):
					ok++
					users[i] = true
				case !has && l[0].Type == tReplyMaxConns && k.Max > 0:
				case is("all") || is("destroy"):
					c.Failf("%s: the reply to connection %d is %+v, it has got the session: %t", step, i, l[0], has)
				}
			}
			if ok != want && (is("all") || is("max")) {
				c.Failf("%s: %d of %d connections could restore the session, expected %d (limit %d)", step, ok, len(at),
					want, k.Max)
			}
		}
		check := func(step string) {
			step = fmt.Sprintf("round %d: %s", round, step)
			c.Settle()
			w.checkPanics()
			n := w.srv.SessionConnectionsNum(key)
			if k.Max > 0 && n > int(k.Max) {
				c.Failf("%s: %d connections use the session, the limit is %d", step, n, k.Max)
			}
			wantClosed := 0
			if len(users) < 1 {
				wantClosed = 1
			}
			if k.How == "drop" || k.How == "close" {
				wantClosed = 0
			}
			if is("destroy") {
				if got := w.sm.numClosed(key); got != wantClosed {
					c.Failf("%s: %d connections use the session, OnSessionClosed was invoked %d times", step, len(users), got)
				}
			}
			if !is("all") {
				return
			}
			want, active := len(users), 1
			if want < 1 {
				want, active = -1, 0
			}
			l := w.srv.SessionConnections(key)
			if n != want || len(l) != len(users) || w.srv.ActiveSessionsNum() != active {
				c.Failf("%s: %d connections use the session, SessionConnectionsNum is %d, SessionConnections returned %d connections, %d sessions are active",
					step, len(users), n, len(l), w.srv.ActiveSessionsNum())
			}
			seen := map[wwr.Connection]bool{}
			for _, conn := range l {
				seen[conn] = true
			}
			for i, p := range peers {
				if seen[p.conn] != users[i] || (p.conn.SessionKey() == key) != users[i] {
					c.Failf("%s: connection %d uses the session: %t, it's listed: %t, its session is %q", step, i, users[i],
						seen[p.conn], p.conn.SessionKey())
				}
			}
		}
		leave := func(n int) {
			var gone []int
			for i := 0; i < len(peers) && n > 0; i++ {
				if users[i] {
					gone = append(gone, i)
					n--
				}
			}
			for _, i := range gone {
				p := peers[i]
				delete(users, i)
				switch k.How {
				case "drop":
					p.drop(errAbnormal)
				case "close":
					p.conn.Close()
				case "closesrv":
					if t := goTask(p.conn.CloseSession); !c.Await(t.isDone) || t.err != nil || t.pan != nil {
						c.Failf("closing the session of connection %d failed: %v, panic: %v", i, t.err, t.pan)
					}
				case "closecli":
					req++
					p.send(frame{Type: tCloseSession, ID: idOf(req)}.encode())
				}
			}
			c.Settle()
			if k.How == "drop" || k.How == "close" {
				var left []*peer
				stay := map[int]bool{}
				for i, p := range peers {
					if p.isClosed() {
						continue
					}
					stay[len(left)] = users[i]
					if !users[i] {
						delete(stay, len(left))
					}
					left = append(left, p)
				}
				peers, users = left, stay
			}
		}
		restore("restoring")
		check("restored")
		for _, n := range k.Leave {
			if n >= len(users) {
				n = len(users) - 1
			}
			leave(n)
			check(fmt.Sprintf("%d connections left", n))
			for len(peers) < k.Conns {
				peers = append(peers, w.connect(0))
			}
			restore("restoring again")
			check("restored again")
		}
		if k.All {
			leave(len(users) - 1)
			check("all but one left")
			leave(1)
			check("all left")
			continue
		}
		before := map[int]int{}
		for i, p := range peers {
			before[i] = p.countType(tSessClosed)
		}
		var conns []wwr.Connection
		var errs []error
		t := goTask(func() (e error) { conns, errs, e = w.srv.CloseSession(key); return })
		c.Settle()
		if !t.isDone() || t.err != nil || t.pan != nil {
			c.Failf("round %d: CloseSession: %v, panic: %v, returned: %t", round, t.err, t.pan, t.isDone())
		}
		if is("all") && (len(conns) != len(users) || len(errs) != len(users)) {
			c.Failf("round %d: %d connections used the closed session, %d affected connections and %d errors were returned",
				round, len(users), len(conns), len(errs))
		}
		for i, p := range peers {
			n := p.countType(tSessClosed) - before[i]
			if (n == 1) != users[i] || n > 1 {
				c.Failf("round %d: connection %d that used the closed session (%t) was notified %d times", round, i, users[i], n)
			}
		}
		users = map[int]bool{}
		how := k.How
		k.How = "closesrv" // it was closed explicitly
		check("closed")
		k.How = how
	}
	c.Nontrivial(true)
	c.Class("a crowd of connections", true)
}
