package wwcheck

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// The session checks execute sequences of operations against a model. C15 asserts everything, each of the other
// properties asserts its own aspect only, what it doesn't assert is adopted from what was observed.

type sOp struct {
	// create, closesrv, closecli, closekey, restore, drop, close, reconnect,
	// busy (a request handler begins), release (it returns), shutdown
	Kind  string
	Conn  int
	Key   int `json:",omitempty"`
	Fault int `json:",omitempty"` // of the notification: 1 writer, 2 first write, 3 second write, 4 closure
	Info  int `json:",omitempty"`

	// Further info fields of a created session
	Fields  map[string]val `json:",omitempty"`
	Generic bool           `json:",omitempty"` // use the generic session info implementation
	Exact   bool           `json:",omitempty"` // there are no other fields
}

// undeliverable is true if the client can't be told about the info
func (o sOp) undeliverable() bool {
	for _, v := range o.Fields {
		if v.K == "chan" || v.K == "big" || v.K == "huge" {
			return o.Info > 0
		}
	}
	return false
}

type sCase struct {
	Limits []int
	Max    uint
	Dup    []int `json:",omitempty"` // makes the key generator return the same key repeatedly
	Off    bool  `json:",omitempty"` // sessions are disabled
	Ops    []sOp
	Age    int           `json:",omitempty"`
	Crowd  *sessionCrowd `json:",omitempty"`
}

type sessGenOpts struct {
	faults, dups, off bool
	fields            bool
	down              bool
	max               []uint
	kinds             []string
}

var sKinds = []string{"create", "create", "create", "closesrv", "closecli", "closekey", "restore", "restore",
	"restore", "restore", "drop", "close", "reconnect", "reconnect", "busy"}

func genSCase(t *rapid.T, g sessGenOpts) (c sCase) {
	c.Age = genAge(t)
	n := rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4}).Draw(t, "conns")
	for i := 0; i < n; i++ {
		c.Limits = append(c.Limits, rapid.SampledFrom([]int{-1, 0, 1, 3}).Draw(t, "limit"))
	}
	c.Max = rapid.SampledFrom(g.max).Draw(t, "max")
	if g.off {
		c.Off = rapid.IntRange(0, 9).Draw(t, "off") == 0
	}
	if g.dups && rapid.IntRange(0, 3).Draw(t, "dups") == 0 {
		c.Dup = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 6).Draw(t, "dup")
	}
	kinds := g.kinds
	if kinds == nil {
		kinds = sKinds
	}
	m := rapid.IntRange(1, 30).Draw(t, "ops")
	busy := 0
	for i := 0; i < m; i++ {
		l := kinds
		if busy > 0 {
			l = append([]string{"release", "release", "close"}, kinds...)
			if g.down {
				l = append(l, "shutdown")
			}
		}
		if g.down && i > m-3 {
			l = append([]string{"shutdown"}, l...)
		}
		o := sOp{
			Kind: rapid.SampledFrom(l).Draw(t, "kind"),
			Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
			Key:  rapid.IntRange(0, 5).Draw(t, "key"),
		}
		switch o.Kind {
		case "busy":
			busy++
		case "release":
			busy--
		case "create":
			o.Info = rapid.IntRange(0, 3).Draw(t, "info")
			if g.fields && o.Info > 0 {
				o.Fields = genFields(t, 2, jsonKinds, 4)
				delete(o.Fields, "n")
				delete(o.Fields, "list")
				o.Generic = rapid.Bool().Draw(t, "generic")
				o.Exact = rapid.Bool().Draw(t, "exact")
				if g.faults && rapid.IntRange(0, 9).Draw(t, "undeliverable") == 0 {
					o.Fields["field"] = val{K: rapid.SampledFrom([]string{"chan", "big", "huge"}).Draw(t, "obstacle")}
					if o.Fields["field"].K == "huge" {
						o.Fields["field"] = val{K: "huge", N: float64(genHuge(t, 6000).len()&^0xffff + 1<<16 - 200)}
					}
				}
			}
		}
		if g.faults && rapid.IntRange(0, 4).Draw(t, "isFault") == 0 {
			o.Fault = rapid.IntRange(1, 4).Draw(t, "fault")
		}
		c.Ops = append(c.Ops, o)
	}
	return
}

type sessExec struct {
	c      *Ctx
	k      sCase
	aspect string
	w      *world
	kg     *keyGen
	peers  []*peer
	sess   []string
	info   map[string]int
	alive  []bool
	store  map[string]bool
	closed map[string]int
	keys   []string
	req    uint64
	nKeys  int

	busy     map[int]chan struct{} // running handlers by connection
	busyReq  map[int][8]byte
	closing  map[int]bool // connections being closed as soon as their handler returns
	shutdown *task
	down     bool

	// Statistics
	shared, destroyed, refused, failed, replaced, shrunk, late, downs int
}

func infoOf(o sOp) wwr.SessionInfo {
	if o.Info == 0 {
		return nil
	}
	m := buildMap(o.Fields)
	if !o.Exact {
		m["n"] = fmt.Sprintf("value%d", o.Info)
		m["list"] = []interface{}{"a", o.Info}
	}
	if o.Generic {
		return wwr.GenericSessionInfoParser(m)
	}
	return mapInfo(m)
}

func newSessExec(c *Ctx, k sCase, aspect string) *sessExec {
	x := &sessExec{c: c, k: k, aspect: aspect, info: map[string]int{}, store: map[string]bool{},
		closed: map[string]int{}, busy: map[int]chan struct{}{}, busyReq: map[int][8]byte{}, closing: map[int]bool{}}
	opt := wwr.OptionValue(wwr.Enabled)
	if k.Off {
		opt = wwr.Disabled
	}
	x.kg = &keyGen{}
	for _, d := range k.Dup {
		x.kg.keys = append(x.kg.keys, fmt.Sprintf("key%d", d))
	}
	x.w = newWorld(c, worldOpts{Sessions: opt, MaxConns: k.Max, KeyGen: x.kg, Age: k.Age})
	x.w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		i := int(m.Payload()[0])
		<-x.busy[i]
		return wwr.Payload{}, nil
	}
	c.Cleanup(func() {
		for i := range x.busy {
			close(x.busy[i])
		}
	})
	for _, l := range k.Limits {
		x.peers = append(x.peers, x.w.connect(l))
		x.sess = append(x.sess, "")
		x.alive = append(x.alive, true)
	}
	return x
}

func (x *sessExec) is(aspect string) bool { return x.aspect == aspect || x.aspect == "all" }

// members returns all slots the session is assigned to
func (x *sessExec) members(key string) (l []int) {
	for i, s := range x.sess {
		if s == key && key != "" {
			l = append(l, i)
		}
	}
	return
}

func (x *sessExec) key(n int) string {
	all := append([]string{}, x.keys...)
	all = append(all, "unknown")
	return all[n%len(all)]
}

// leave removes the session from a connection, explicit tells whether it was closed
func (x *sessExec) leave(i int, explicit bool) {
	key := x.sess[i]
	if key == "" {
		return
	}
	x.sess[i] = ""
	if explicit && len(x.members(key)) == 0 {
		x.closed[key]++
		delete(x.store, key)
		x.destroyed++
	}
}

func (x *sessExec) setFault(i, fault int) {
	s := x.peers[i].fakeSock
	s.mu.Lock()
	defer s.mu.Unlock()
	switch fault {
	case 1:
		s.faults.Writers = append(s.faults.Writers, s.nWriters)
	case 2:
		s.faults.Writes = append(s.faults.Writes, s.nWrites)
	case 3:
		s.faults.Writes = append(s.faults.Writes, s.nWrites+1)
	case 4:
		s.faults.Closes = append(s.faults.Closes, s.nCloses)
	}
}

func (x *sessExec) clearFaults(i int) {
	s := x.peers[i].fakeSock
	s.mu.Lock()
	s.faults = Faults{}
	s.mu.Unlock()
}

// call executes f, it must not block
func (x *sessExec) call(step string, f func() error) error {
	t := goTask(f)
	x.c.Settle()
	x.w.checkPanics()
	if !t.isDone() {
		x.c.Failf("%s: the call doesn't return", step)
	}
	if t.pan != nil {
		x.c.Failf("%s: panic: %v", step, t.pan)
	}
	return t.err
}

// request sends a special request and returns the reply
func (x *sessExec) request(step string, i int, f frame) frame {
	x.req++
	f.ID = idOf(x.req)
	x.peers[i].send(f.encode())
	x.c.Settle()
	x.w.checkPanics()
	l := x.peers[i].replies(f.ID)
	if len(l) != 1 {
		x.c.Failf("%s: expected exactly one reply, got %+v", step, l)
	}
	return l[0]
}

func (x *sessExec) framesOf(i int) int { return len(x.peers[i].received()) }

func (x *sessExec) exec(n int, o sOp) {
	c, w := x.c, x.w
	i := o.Conn
	p := x.peers[i]
	_, busy := x.busy[i]
	serial := x.k.Limits[i] == 0 || x.k.Limits[i] == 1
	switch o.Kind {
	case "restore", "closecli":
		if busy && serial {
			return // Isn't even read
		}
	case "drop":
		if busy {
			return
		}
	case "create":
		if x.closing[i] {
			return
		}
	}
	step := fmt.Sprintf("op %d (%s conn %d", n, o.Kind, i)
	if o.Kind == "restore" || o.Kind == "closekey" {
		step += " key " + x.key(o.Key)
	}
	if o.Fault > 0 {
		step += fmt.Sprintf(" fault %d", o.Fault)
	}
	step += ")"
	had := x.sess[i]
	before := make([]int, len(x.peers))
	for j := range x.peers {
		before[j] = x.framesOf(j)
	}
	expectFrames := map[int]byte{}
	switch o.Kind {
	case "create":
		x.kg.mu.Lock()
		next := fmt.Sprintf("key%d", x.kg.n)
		if x.kg.n < len(x.kg.keys) {
			next = x.kg.keys[x.kg.n]
		}
		x.kg.mu.Unlock()
		full := x.k.Max > 0 && uint(len(x.members(next))) >= x.k.Max
		created, closed := w.sm.numCreated(next), w.sm.numClosed(next)
		if o.Fault > 0 {
			x.setFault(i, o.Fault)
		}
		err := x.call(step, func() error { return p.conn.CreateSession(infoOf(o)) })
		x.clearFaults(i)
		mustFail := x.k.Off || !x.alive[i] || had != "" || full || o.Fault > 0 || o.undeliverable()
		if mustFail {
			x.failed++
		}
		if x.is("notify") {
			if mustFail && err == nil {
				c.Failf("%s: CreateSession succeeded (alive %t, previous session %q, disabled %t, limit reached %t)",
					step, x.alive[i], had, x.k.Off, full)
			}
			if !mustFail && err != nil {
				c.Failf("%s: CreateSession failed: %s", step, err)
			}
			if x.k.Off {
				if _, ok := err.(wwr.ErrSessionsDisabled); !ok {
					c.Failf("%s: expected ErrSessionsDisabled, got %v", step, err)
				}
			}
			hooks := w.sm.numCreated(next) - created
			if err != nil && hooks != 0 {
				c.Failf("%s: OnSessionCreated was invoked though CreateSession failed: %s", step, err)
			}
			if w.sm.numClosed(next) != closed {
				c.Failf("%s: OnSessionClosed was invoked by CreateSession (error: %v)", step, err)
			}
			if err == nil && hooks != 1 {
				c.Failf("%s: OnSessionCreated was invoked %d times", step, hooks)
			}
		}
		if err == nil {
			key := p.conn.SessionKey()
			if x.is("notify") && key != next {
				c.Failf("%s: the session key is %q, %q was generated", step, key, next)
			}
			x.sess[i] = key
			x.info[key] = o.Info
			if o.Exact {
				x.info[key] = 0
			}
			x.store[key] = true
			known := false
			for _, k := range x.keys {
				known = known || k == key
			}
			if !known {
				x.keys = append(x.keys, key)
			}
			expectFrames[i] = tSessCreated
			if x.is("notify") {
				x.checkCreated(step, i, before[i], o)
			}
		}
	case "closesrv":
		if o.Fault > 0 {
			x.setFault(i, o.Fault)
		}
		err := x.call(step, p.conn.CloseSession)
		x.clearFaults(i)
		if x.is("notify") {
			switch {
			case x.k.Off:
				if _, ok := err.(wwr.ErrSessionsDisabled); !ok {
					c.Failf("%s: expected ErrSessionsDisabled, got %v", step, err)
				}
			case had == "" && err != nil:
				c.Failf("%s: closing no session failed: %s", step, err)
			case had != "" && o.Fault > 0 && o.Fault != 3 && err == nil:
				c.Failf("%s: the notification failed, but CloseSession didn't", step)
			case had != "" && o.Fault == 0 && err != nil:
				c.Failf("%s: CloseSession failed: %s", step, err)
			}
		}
		x.leave(i, true)
		if had != "" && (o.Fault == 0 || o.Fault == 3) {
			expectFrames[i] = tSessClosed
		}
	case "closecli":
		if !x.alive[i] {
			return
		}
		r := x.request(step, i, frame{Type: tCloseSession})
		expectFrames[i] = r.Type
		if x.shutdown != nil {
			if x.is("notify") && r.Type != tReplyShutdown && !(x.k.Off && r.Type == tReplyDisabled) {
				c.Failf("%s: expected to be refused because of the shutdown, got %+v", step, r)
			}
			break
		}
		if x.is("notify") {
			want := byte(tReply)
			if x.k.Off {
				want = tReplyDisabled
			}
			if r.Type != want || len(r.Payload) > 0 {
				c.Failf("%s: the reply is %+v", step, r)
			}
		}
		x.leave(i, true)
	case "closekey":
		key := x.key(o.Key)
		members := x.members(key)
		faulty := -1
		if o.Fault > 0 && o.Fault != 3 && len(members) > 0 {
			faulty = members[i%len(members)]
			x.setFault(faulty, o.Fault)
		}
		var conns []wwr.Connection
		var errs []error
		err := x.call(step, func() (e error) {
			conns, errs, e = w.srv.CloseSession(key)
			return
		})
		if faulty >= 0 {
			x.clearFaults(faulty)
		}
		if x.is("notify") && !x.k.Off {
			if len(conns) != len(members) || len(errs) != len(conns) {
				c.Failf("%s: %d connections, %d affected connections and %d errors returned", step, len(members),
					len(conns), len(errs))
			}
			if len(members) == 0 && (conns != nil || errs != nil) {
				c.Failf("%s: expected (nil, nil, nil), got (%v, %v, %v)", step, conns, errs, err)
			}
			if (err != nil) != (faulty >= 0) {
				c.Failf("%s: unexpected general error: %v", step, err)
			}
			seen := map[int]bool{}
			for j, conn := range conns {
				id := -1
				for _, m := range members {
					if x.peers[m].conn == conn {
						id = m
					}
				}
				if id < 0 || seen[id] {
					c.Failf("%s: unexpected affected connection", step)
				}
				seen[id] = true
				if (errs[j] != nil) != (id == faulty) {
					c.Failf("%s: unexpected error for connection %d: %v", step, id, errs[j])
				}
			}
		}
		for _, m := range members {
			x.leave(m, true)
			if m != faulty {
				expectFrames[m] = tSessClosed
			}
		}
	case "restore":
		if !x.alive[i] {
			return
		}
		key := x.key(o.Key)
		members := x.members(key)
		full := x.k.Max > 0 && uint(len(members)) >= x.k.Max
		r := x.request(step, i, frame{Type: tRestore, Payload: []byte(key)})
		expectFrames[i] = r.Type
		ok := isReply(r.Type)
		if x.shutdown != nil {
			if x.is("notify") && r.Type != tReplyShutdown && !(x.k.Off && r.Type == tReplyDisabled) {
				c.Failf("%s: expected to be refused because of the shutdown, got %+v", step, r)
			}
			break
		}
		if x.k.Off {
			if x.is("notify") && r.Type != tReplyDisabled {
				c.Failf("%s: sessions are disabled but the reply is %+v", step, r)
			}
			break
		}
		if x.is("max") {
			if had == key && full {
				// The connection is one of those counted already
			} else if full && ok {
				c.Failf("%s: the session was restored though %d connections use it already (limit %d)", step,
					len(members), x.k.Max)
			} else if full && r.Type != tReplyMaxConns {
				c.Failf("%s: expected to be refused because of the limit of %d, got %+v", step, x.k.Max, r)
			} else if !full && r.Type == tReplyMaxConns {
				c.Failf("%s: restoration was refused though only %d connections use the session (limit %d)", step,
					len(members), x.k.Max)
			}
		}
		if r.Type == tReplyMaxConns {
			x.refused++
		}
		if x.is("destroy") {
			if ok && !x.store[key] {
				c.Failf("%s: a session that doesn't exist (any more) was restored", step)
			}
			if !ok && x.store[key] && !full {
				c.Failf("%s: an existing session couldn't be restored: %+v", step, r)
			}
			if !x.store[key] && !full && r.Type != tReplyNotFound {
				c.Failf("%s: expected the session not to be found, got %+v", step, r)
			}
		}
		if ok {
			if had != "" && had != key {
				x.replaced++
			}
			x.leave(i, false)
			x.sess[i] = key
			if len(x.members(key)) > 1 {
				x.shared++
			}
		}
	case "drop", "close":
		if !x.alive[i] {
			return
		}
		if o.Kind == "drop" {
			p.drop(errAbnormal)
		} else {
			p.conn.Close()
		}
		c.Settle()
		w.checkPanics()
		x.alive[i] = false
		if busy {
			// The session remains until the handler returned
			x.closing[i] = true
			x.late++
			break
		}
		if had != "" {
			x.shrunk++
		}
		x.leave(i, false)
	case "busy":
		if busy || !x.alive[i] || x.shutdown != nil {
			return
		}
		x.req++
		x.busy[i] = make(chan struct{})
		x.busyReq[i] = idOf(x.req)
		p.send(frame{Type: tRequest, ID: idOf(x.req), Payload: []byte{byte(i)}}.encode())
		c.Settle()
		w.checkPanics()
	case "release":
		if !busy {
			return
		}
		close(x.busy[i])
		c.Settle()
		w.checkPanics()
		delete(x.busy, i)
		l := p.replies(x.busyReq[i])
		if len(l) != 1 || !isReply(l[0].Type) {
			c.Failf("%s: unexpected reply %+v", step, l)
		}
		expectFrames[i] = l[0].Type
		if x.closing[i] {
			x.closing[i] = false
			if had != "" {
				x.shrunk++
			}
			x.leave(i, false)
		}
	case "shutdown":
		if x.shutdown != nil {
			return
		}
		x.downs++
		x.shutdown = goTask(w.srv.Shutdown)
		c.Settle()
		w.checkPanics()
	case "reconnect":
		if x.alive[i] || x.closing[i] || x.shutdown != nil {
			return
		}
		x.peers[i] = w.connect(x.k.Limits[i])
		x.alive[i] = true
		before[i] = x.framesOf(i)
	}
	if x.shutdown != nil && !x.down && len(x.busy) == 0 {
		// All connections are lost
		if !x.shutdown.isDone() || x.shutdown.pan != nil || x.shutdown.err != nil {
			c.Failf("%s: Shutdown doesn't return or failed: %v %v", step, x.shutdown.err, x.shutdown.pan)
		}
		x.down = true
		for j := range x.peers {
			x.alive[j] = false
			x.leave(j, false)
		}
	}
	if x.is("notify") {
		for j := range x.peers {
			l := x.peers[j].received()[before[j]:]
			want, any := expectFrames[j]
			if (any && (len(l) != 1 || l[0].data[0] != want)) || (!any && len(l) != 0) {
				c.Failf("%s: connection %d received %x, expected message type %d (%t)", step, j, l, want, any)
			}
		}
	}
	x.compare(step)
}

// checkCreated verifies the notification about a created session
func (x *sessExec) checkCreated(step string, i, before int, o sOp) {
	p := x.peers[i]
	l := p.received()[before:]
	if len(l) != 1 {
		x.c.Failf("%s: %d messages were sent, expected one notification", step, len(l))
	}
	f, v := decode(l[0].data)
	if v != valid || f.Type != tSessCreated {
		x.c.Failf("%s: unexpected notification %x", step, l[0].data)
	}
	var enc struct {
		K string
		C time.Time
		L time.Time
		I map[string]interface{}
	}
	if err := json.Unmarshal(f.Payload, &enc); err != nil {
		x.c.Failf("%s: invalid notification %q: %s", step, f.Payload, err)
	}
	s := p.conn.Session()
	if s == nil {
		x.c.Failf("%s: there's no session after its creation", step)
	}
	if enc.K != s.Key || !enc.C.Equal(s.Creation) || !enc.L.Equal(s.LastLookup) ||
		!p.conn.SessionCreation().Equal(s.Creation) {
		x.c.Failf("%s: the client was told %+v, the session is %+v", step, enc, s)
	}
	want := normalise(wwr.SessionInfoToVarMap(infoOf(o)))
	if !bytes.Equal(want, normalise(enc.I)) || !bytes.Equal(want, normalise(wwr.SessionInfoToVarMap(s.Info))) {
		x.c.Failf("%s: unexpected session info: expected %s, the client was told %s, the session has %s", step, want,
			normalise(enc.I), normalise(wwr.SessionInfoToVarMap(s.Info)))
	}
}

// normalise returns a canonical JSON encoding in which an empty map equals none
func normalise(m map[string]interface{}) []byte {
	if len(m) == 0 {
		return []byte("{}")
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// renormalise returns what's left of an encoded map when it's decoded and encoded again
func renormalise(b []byte) []byte {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return b
	}
	return normalise(m)
}

// compare compares the state of the server with the model
func (x *sessExec) compare(step string) {
	c, w := x.c, x.w
	keys := append(append([]string{}, x.keys...), "unknown", "")
	for i := 0; i < 8; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	if x.is("registry") {
		active := map[string]bool{}
		for i, s := range x.sess {
			conn := x.peers[i].conn
			if s != "" {
				active[s] = true
			}
			if conn.SessionKey() != s || conn.HasSession() != (s != "") || (conn.Session() != nil) != (s != "") {
				c.Failf("%s: connection %d has session %q (%t, %v), expected %q", step, i, conn.SessionKey(),
					conn.HasSession(), conn.Session(), s)
			}
			if s == "" && (!conn.SessionCreation().IsZero() || conn.SessionInfo("n") != nil) {
				c.Failf("%s: connection %d exposes the data of a session it doesn't have any more", step, i)
			}
			if s != "" {
				var want interface{}
				if n := x.info[s]; n > 0 {
					want = fmt.Sprintf("value%d", n)
				}
				if conn.SessionInfo("n") != want || conn.Session().Key != s {
					c.Failf("%s: connection %d: unexpected session data %v, expected %v", step, i, conn.SessionInfo("n"), want)
				}
			}
			if conn.IsActive() != x.alive[i] {
				c.Failf("%s: connection %d: active is %t", step, i, conn.IsActive())
			}
		}
		if n := w.srv.ActiveSessionsNum(); n != len(active) {
			c.Failf("%s: %d active sessions reported, expected %d", step, n, len(active))
		}
		for _, key := range keys {
			members := x.members(key)
			n := w.srv.SessionConnectionsNum(key)
			want := len(members)
			if want == 0 {
				want = -1
			}
			if n != want {
				c.Failf("%s: SessionConnectionsNum(%q) is %d, expected %d", step, key, n, want)
			}
			conns := w.srv.SessionConnections(key)
			if len(conns) != len(members) || (len(members) == 0 && conns != nil) {
				c.Failf("%s: SessionConnections(%q) returned %d connections, expected %d", step, key, len(conns), len(members))
			}
			for _, m := range members {
				found := false
				for _, conn := range conns {
					found = found || conn == x.peers[m].conn
				}
				if !found {
					c.Failf("%s: SessionConnections(%q) doesn't list connection %d", step, key, m)
				}
			}
		}
	}
	if x.is("destroy") {
		for _, key := range keys {
			if n := w.sm.numClosed(key); n != x.closed[key] {
				c.Failf("%s: OnSessionClosed was invoked %d times for session %q, expected %d", step, n, key, x.closed[key])
			}
		}
	}
	if x.is("max") && x.k.Max > 0 {
		for _, key := range keys {
			if n := w.srv.SessionConnectionsNum(key); n > int(x.k.Max) {
				c.Failf("%s: session %q is used by %d connections (limit %d)", step, key, n, x.k.Max)
			}
		}
	}
	if x.is("notify") {
		for i, s := range x.sess {
			if got := x.peers[i].conn.SessionKey(); got != s {
				c.Failf("%s: connection %d has session %q, expected %q", step, i, got, s)
			}
		}
		for _, key := range keys {
			if n := w.srv.SessionConnectionsNum(key); (n > 0) != (len(x.members(key)) > 0) {
				c.Failf("%s: session %q is reported to have %d connections, expected %d", step, key, n, len(x.members(key)))
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------
// C15: the session registry reflects which connections use which session

func init() {
	registerNoisy("C15",
		"a session was shared by two connections, replaced by another one or survived the loss of a connection",
		4500, 135000,
		func(t *rapid.T) sCase {
			if genRarely(t, "isCrowd") {
				return sCase{Crowd: genSessionCrowd(t)}
			}
			return genSCase(t, sessGenOpts{max: []uint{0, 0, 1, 2, 3}, faults: true, down: true, fields: true})
		},
		func(c *Ctx, k sCase) {
			if k.Crowd != nil {
				runSessionCrowd(c, *k.Crowd, "all")
				return
			}
			x := newSessExec(c, k, "all")
			for i, o := range k.Ops {
				x.exec(i, o)
			}
			c.Nontrivial(x.shared > 0 || x.replaced > 0 || x.shrunk > 0)
			c.Class("shared session", x.shared > 0)
			c.Class("replaced session", x.replaced > 0)
			c.Class("lost connection", x.shrunk > 0)
			c.Class("closed while busy", x.late > 0)
			c.Class("shutdown", x.downs > 0)
		})
}

// ---------------------------------------------------------------------------------------------
// C16: a session is destroyed exactly once, when it's closed on its last connection

type c16 struct {
	Seq   *sCase        `json:",omitempty"`
	Crowd *sessionCrowd `json:",omitempty"`

	// Concurrent operations on sessions created beforehand
	Gates []string
	Init  []int // the session each connection uses initially, -1 for none
	Ops   []c16op
	Order []int
	Down  int   // the server is shut down after this number of operations unless it's negative
	Sync  []int `json:",omitempty"` // further synchronisation points that are gates
}

type c16op struct {
	Kind string
	Conn int
	Key  int
	Free int // number of goroutines released afterwards
}

func init() {
	registerNoisy("C16",
		"a session was destroyed, or several session operations were in progress at the same time",
		4500, 135000,
		func(t *rapid.T) (c c16) {
			if genRarely(t, "isCrowd") {
				c.Crowd = genSessionCrowd(t)
				return
			}
			if rapid.IntRange(0, 2).Draw(t, "mode") == 0 {
				s := genSCase(t, sessGenOpts{max: []uint{0, 0, 2, 3}, down: true})
				c.Seq = &s
				return
			}
			for _, g := range []string{"prelookup", "lookup", "closed", "writer", "sockclose", "flush", "flushed", "keygen", "created"} {
				if rapid.IntRange(0, 3).Draw(t, g) > 0 == (g != "writer" && g != "flush" && g != "flushed") {
					c.Gates = append(c.Gates, g)
				}
			}
			n := rapid.IntRange(2, 4).Draw(t, "conns")
			for i := 0; i < n; i++ {
				c.Init = append(c.Init, rapid.IntRange(-1, 1).Draw(t, "init"))
			}
			m := rapid.IntRange(2, 10).Draw(t, "ops")
			kinds := []string{"restore", "restore", "restore", "closesrv", "closesrv", "closecli", "closekey", "drop", "close"}
			lastKey := 1
			if rapid.Bool().Draw(t, "creations") {
				kinds = append(kinds, "create", "create", "create")
				lastKey = 3
			}
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, c16op{
					Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
					Conn: rapid.IntRange(0, n-1).Draw(t, "conn"),
					Key:  rapid.IntRange(0, lastKey).Draw(t, "key"),
					Free: rapid.IntRange(0, 2).Draw(t, "free"),
				})
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 8, 8).Draw(t, "order")
			c.Down = -1
			if rapid.IntRange(0, 3).Draw(t, "isDown") == 0 {
				c.Down = rapid.IntRange(0, m).Draw(t, "down")
			}
			c.Sync = genGates(t)
			return
		},
		func(c *Ctx, k c16) {
			if k.Seq != nil {
				x := newSessExec(c, *k.Seq, "destroy")
				for i, o := range k.Seq.Ops {
					x.exec(i, o)
				}
				c.Nontrivial(x.destroyed > 0)
				c.Class("sequential", true)
				c.Class("destroyed", x.destroyed > 0)
				c.Class("shutdown", x.downs > 0)
				return
			}
			if k.Crowd != nil {
				runSessionCrowd(c, *k.Crowd, "destroy")
				return
			}
			runC16(c, k)
		})
}

func runC16(c *Ctx, k c16) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled})
	var peers []*peer
	keys := []string{"s0", "s1"}
	now := time.Now()
	for _, key := range keys {
		w.sm.put(key, stored{now, now, nil})
	}
	// Those created meanwhile
	creates, closesOwn := map[int]bool{}, map[int]bool{}
	for _, o := range k.Ops {
		switch o.Kind {
		case "create":
			keys = append(keys, fmt.Sprintf("key%d", len(keys)-2))
			creates[o.Conn] = true
		case "closecli":
			closesOwn[o.Conn] = true
		}
	}
	keyOf := func(n int) string {
		if n < 2 {
			return keys[n]
		}
		return fmt.Sprintf("key%d", n-2)
	}
	w.sm.tombstones = len(creates) > 0
	var req uint64
	restored := map[int][]uint64{}
	closures := map[[8]byte]bool{}
	for i, s := range k.Init {
		p := w.connect([]int{0, 4}[i%2])
		peers = append(peers, p)
		if s >= 0 {
			req++
			p.send(frame{Type: tRestore, ID: idOf(req), Payload: []byte(keys[s])}.encode())
			c.Settle()
			restored[i] = append(restored[i], req)
			if p.conn.SessionKey() != keys[s] {
				c.Failf("restoring session %s failed", keys[s])
			}
		}
	}
	for _, g := range k.Gates {
		w.sched.Enable(g, true)
	}
	w.gate(k.Sync)
	var tasks []*task
	var names []string
	explicit := map[string]bool{} // sessions that may have been closed explicitly
	dropped := map[int]bool{}
	maxParked := 0
	release := func(n int) {
		for j := 0; j < n; j++ {
			c.Settle()
			w.checkPanics()
			if l := len(w.sched.Parked()); l > maxParked {
				maxParked = l
			}
			w.sched.Release(k.Order[(j+n)%len(k.Order)])
		}
	}
	// usable returns the sessions the connection may have at some time during the case
	mayHave := make([]map[string]bool, len(peers))
	for i, s := range k.Init {
		mayHave[i] = map[string]bool{}
		if s >= 0 {
			mayHave[i][keys[s]] = true
		}
	}
	for _, o := range k.Ops {
		switch o.Kind {
		case "restore":
			mayHave[o.Conn][keyOf(o.Key)] = true
		case "create":
			for _, key := range keys[2:] {
				mayHave[o.Conn][key] = true
			}
		}
	}
	shut := func(n int) {
		if k.Down == n {
			tasks = append(tasks, goTask(w.srv.Shutdown))
			names = append(names, "Shutdown")
		}
	}
	for n, o := range k.Ops {
		shut(n)
		p := peers[o.Conn]
		switch o.Kind {
		case "restore":
			req++
			restored[o.Conn] = append(restored[o.Conn], req)
			p.send(frame{Type: tRestore, ID: idOf(req), Payload: []byte(keyOf(o.Key))}.encode())
		case "closecli":
			req++
			closures[idOf(req)] = true
			p.send(frame{Type: tCloseSession, ID: idOf(req)}.encode())
		case "closesrv":
			tasks = append(tasks, goTask(func() error { p.conn.CloseSession(); return nil }))
			names = append(names, fmt.Sprintf("CloseSession of connection %d", o.Conn))
		case "closekey":
			tasks = append(tasks, goTask(func() error { w.srv.CloseSession(keyOf(o.Key)); return nil }))
			names = append(names, "Server.CloseSession of "+keyOf(o.Key))
			explicit[keyOf(o.Key)] = true
		case "create":
			tasks = append(tasks, goTask(func() error { p.conn.CreateSession(mapInfo{"n": n}); return nil }))
			names = append(names, fmt.Sprintf("CreateSession on connection %d", o.Conn))
		case "drop":
			p.drop(errAbnormal)
			dropped[o.Conn] = true
		case "close":
			tasks = append(tasks, goTask(func() error { p.conn.Close(); return nil }))
			names = append(names, fmt.Sprintf("closing connection %d", o.Conn))
			dropped[o.Conn] = true
		}
		if o.Kind == "closecli" || o.Kind == "closesrv" {
			for key := range mayHave[o.Conn] {
				explicit[key] = true
			}
		}
		release(o.Free)
	}
	shut(len(k.Ops))
	for i := 0; ; i++ {
		c.Settle()
		w.checkPanics()
		if l := len(w.sched.Parked()); l > maxParked {
			maxParked = l
		}
		if w.sched.Release(k.Order[i%len(k.Order)]) == "" {
			break
		}
	}
	for i, t := range tasks {
		if !t.isDone() {
			c.Failf("%s is stuck", names[i])
		}
		if t.pan != nil {
			c.Failf("%s panicked: %v", names[i], t.pan)
		}
	}
	checkSessions(c, w, peers, keys, func(key string, users int) {
		n := w.sm.numClosed(key)
		if n > 1 {
			c.Failf("OnSessionClosed was invoked %d times for session %s", n, key)
		}
		if n > 0 && !explicit[key] {
			c.Failf("session %s was destroyed though it was never closed", key)
		}
		if n > 0 && users > 0 {
			c.Failf("session %s was destroyed, nevertheless %d connections use it", key, users)
		}
	})
	destroyed := 0
	for i, p := range peers {
		if dropped[i] || p.isClosed() {
			continue
		}
		if !p.isReading() || p.pendingIn() > 0 {
			c.Failf("connection %d isn't served any more", i)
		}
		for _, id := range restored[i] {
			if l := p.replies(idOf(id)); len(l) != 1 {
				c.Failf("a restoration request on connection %d was replied to %d times", i, len(l))
			}
		}
		// The reply to a closure request concerns the session of the time when it was received
		if told, has := p.told(closures), p.conn.SessionKey(); told != has && !(creates[i] && closesOwn[i]) {
			c.Failf("connection %d has session %q, the last session its client was told about is %q", i, has, told)
		}
	}
	// Closing explicitly what's left destroys each session exactly once
	w.sched.Off()
	for n, key := range keys {
		users := w.srv.SessionConnectionsNum(key)
		was := w.sm.numClosed(key)
		if users > 0 {
			t := goTask(func() error { w.srv.CloseSession(key); return nil })
			c.Settle()
			if !t.isDone() || t.pan != nil {
				c.Failf("closing session %s at last failed: %v", key, t.pan)
			}
			if n := w.sm.numClosed(key) - was; n != 1 {
				c.Failf("closing session %s on all its %d connections destroyed it %d times", key, users, n)
			}
		} else if w.sm.numClosed(key) != was {
			c.Failf("session %s was destroyed belatedly", key)
		}
		if w.sm.numClosed(key) > 0 {
			destroyed++
		}
		if n >= 2 {
			// It may not have been created at all
			continue
		}
		if k.Down >= 0 {
			w.sm.mu.Lock()
			_, exists := w.sm.sessions[key]
			w.sm.mu.Unlock()
			if users > 0 || exists != (w.sm.numClosed(key) == 0) {
				c.Failf("session %s is used by %d connections after the shutdown, it's stored: %t", key, users, exists)
			}
			continue
		}
		p := w.connect(0)
		req++
		p.send(frame{Type: tRestore, ID: idOf(req), Payload: []byte(key)}.encode())
		c.Settle()
		l := p.replies(idOf(req))
		want := byte(tReply + 1)
		if w.sm.numClosed(key) > 0 {
			want = tReplyNotFound
		}
		if len(l) != 1 || l[0].Type != want {
			c.Failf("restoring session %s in the end (destroyed: %t): %+v", key, w.sm.numClosed(key) > 0, l)
		}
		if l := p.conn.SessionKey(); (l == key) != (want != tReplyNotFound) {
			c.Failf("restoring session %s in the end assigned %q", key, l)
		}
		p.drop(errClosed)
	}
	c.Nontrivial(maxParked >= 2)
	c.Class("concurrent", true)
	c.Class("destroyed", destroyed > 0)
	c.Class("shutdown", k.Down >= 0)
	c.Class("creations", len(creates) > 0)
}

// told returns the key of the session the client was told about at last
func (p *peer) told(closures map[[8]byte]bool) (key string) {
	for _, f := range p.decoded() {
		switch {
		case f.Type == tSessCreated || f.Type == tReply+1:
			var enc struct{ K string }
			if json.Unmarshal(f.Payload, &enc) == nil {
				key = enc.K
			}
		case f.Type == tSessClosed || (f.Type == tReply && closures[f.ID]):
			key = ""
		}
	}
	return
}

// checkSessions verifies that the registry agrees with the connections
func checkSessions(
	c *Ctx, w *world, peers []*peer, keys []string, check func(key string, users int),
) {
	all := map[string]bool{}
	for _, key := range keys {
		var users []string
		for i, p := range peers {
			if p.conn.SessionKey() == key {
				users = append(users, fmt.Sprint(i))
				all[key] = true
				if p.isClosed() {
					c.Failf("connection %d is closed but still has session %s", i, key)
				}
			}
		}
		var reg []string
		for _, conn := range w.srv.SessionConnections(key) {
			for i, p := range peers {
				if p.conn == conn {
					reg = append(reg, fmt.Sprint(i))
				}
			}
		}
		sort.Strings(reg)
		sort.Strings(users)
		if strings.Join(reg, " ") != strings.Join(users, " ") {
			c.Failf("session %s is used by the connections %v, the registry lists %v", key, users, reg)
		}
		if check != nil {
			check(key, len(users))
		}
	}
	if n := w.srv.ActiveSessionsNum(); n != len(all) {
		c.Failf("%d sessions are in use, the registry counts %d", len(all), n)
	}
}

// ---------------------------------------------------------------------------------------------
// C17: a session is never used by more connections than allowed, others aren't refused

type c17 struct {
	Seq   *sCase        `json:",omitempty"`
	Crowd *sessionCrowd `json:",omitempty"`

	Max    uint
	Init   int // connections using the session beforehand
	Racers int
	Leave  int // number of initial connections lost during the race
	Order  []int
	Gates  []string
	Own    string `json:",omitempty"` // the racers have sessions of their own, these are restored or closed meanwhile
	Sync   []int  `json:",omitempty"`
}

func init() {
	registerNoisy("C17",
		"restoring a session was refused because of the limit",
		4500, 135000,
		func(t *rapid.T) (c c17) {
			if genRarely(t, "isCrowd") {
				c.Crowd = genSessionCrowd(t)
				return
			}
			if rapid.Bool().Draw(t, "mode") {
				s := genSCase(t, sessGenOpts{max: []uint{1, 1, 2, 3},
					kinds: []string{"create", "create", "restore", "restore", "restore", "restore", "closesrv",
						"closecli", "drop", "close", "reconnect", "reconnect", "closekey", "busy"}})
				c.Seq = &s
				return
			}
			c.Max = uint(rapid.IntRange(0, 4).Draw(t, "max"))
			c.Racers = rapid.IntRange(2, 6).Draw(t, "racers")
			if c.Max > 0 {
				c.Init = rapid.IntRange(0, int(c.Max)).Draw(t, "init")
			}
			c.Leave = rapid.IntRange(0, c.Init).Draw(t, "leave")
			if rapid.Bool().Draw(t, "stay") {
				c.Leave = 0
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 8, 8).Draw(t, "order")
			for _, g := range []string{"prelookup", "lookup", "flush", "flushed", "writer"} {
				if rapid.Bool().Draw(t, g) {
					c.Gates = append(c.Gates, g)
				}
			}
			c.Own = rapid.SampledFrom([]string{"", "", "kept", "restored", "restored", "closed"}).Draw(t, "own")
			c.Sync = genGates(t)
			return
		},
		func(c *Ctx, k c17) {
			if k.Seq != nil {
				x := newSessExec(c, *k.Seq, "max")
				for i, o := range k.Seq.Ops {
					x.exec(i, o)
				}
				c.Nontrivial(x.refused > 0)
				c.Class("sequential", true)
				return
			}
			if k.Crowd != nil {
				runSessionCrowd(c, *k.Crowd, "max")
				return
			}
			runC17(c, k)
		})
}

func runC17(c *Ctx, k c17) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled, MaxConns: k.Max})
	now := time.Now()
	w.sm.put("s", stored{now, now, nil})
	var peers []*peer
	for i := 0; i < k.Init+k.Racers; i++ {
		peers = append(peers, w.connect(0))
	}
	restore := func(i int) {
		peers[i].send(frame{Type: tRestore, ID: idOf(uint64(i)), Payload: []byte("s")}.encode())
	}
	for i := 0; i < k.Init; i++ {
		restore(i)
		c.Settle()
		if l := peers[i].replies(idOf(uint64(i))); len(l) != 1 || !isReply(l[0].Type) {
			c.Failf("connection %d of %d allowed connections was refused: %+v", i+1, k.Max, l)
		}
	}
	keys := []string{"s"}
	own := func(i int) string { return fmt.Sprint("own", i) }
	var others []*peer
	if k.Own != "" {
		for i := 0; i < k.Racers; i++ {
			keys = append(keys, own(i))
			w.sm.put(own(i), stored{now, now, nil})
			peers[k.Init+i].send(frame{Type: tRestore, ID: idOf(uint64(1000 + i)), Payload: []byte(own(i))}.encode())
			others = append(others, w.connect(0))
		}
		c.Settle()
	}
	for _, g := range k.Gates {
		w.sched.Enable(g, true)
	}
	w.gate(k.Sync)
	var closures []*task
	for i := 0; i < k.Racers; i++ {
		restore(k.Init + i)
		switch k.Own {
		case "restored":
			others[i].send(frame{Type: tRestore, ID: idOf(uint64(2000 + i)), Payload: []byte(own(i))}.encode())
		case "closed":
			i := i
			closures = append(closures, goTask(func() error { w.srv.CloseSession(own(i)); return nil }))
		}
	}
	for i := 0; ; i++ {
		c.Settle()
		w.checkPanics()
		if w.sched.Count("sync", "") == 0 {
			if n := w.srv.SessionConnectionsNum("s"); k.Max > 0 && n > int(k.Max) {
				c.Failf("%d connections use the session, the limit is %d", n, k.Max)
			}
		}
		if i == 2 {
			for j := 0; j < k.Leave; j++ {
				peers[j].drop(errAbnormal)
			}
			c.Settle()
		}
		if w.sched.Release(k.Order[i%len(k.Order)]) == "" && i > 2 {
			break
		}
	}
	ok, refused := 0, 0
	for i := k.Init; i < len(peers); i++ {
		l := peers[i].replies(idOf(uint64(i)))
		if len(l) != 1 {
			c.Failf("connection %d received %d replies", i, len(l))
		}
		has := peers[i].conn.SessionKey() == "s"
		switch {
		case isReply(l[0].Type) && has:
			ok++
		case l[0].Type == tReplyMaxConns && !has:
			refused++
		default:
			c.Failf("connection %d received %+v, it has the session: %t", i, l[0], has)
		}
		if n := i - k.Init; k.Own != "" && !has {
			// Nothing was changed by the refusal
			if key := peers[i].conn.SessionKey(); key != "" && key != own(n) || (key == "") != (k.Own == "closed") {
				c.Failf("connection %d was refused, session %q became %q (%s meanwhile)", i, own(n), key, k.Own)
			}
			if l := peers[i].replies(idOf(uint64(1000 + n))); len(l) != 1 || !isReply(l[0].Type) {
				c.Failf("connection %d wasn't allowed to use a session of its own: %+v", i, l)
			}
		}
	}
	for i, t := range closures {
		if !t.isDone() || t.pan != nil {
			c.Failf("closing session %s failed: %v", own(i), t.pan)
		}
	}
	free := k.Racers
	if k.Max > 0 {
		free = int(k.Max) - k.Init
	}
	min, max := free, free+k.Leave
	if min > k.Racers {
		min = k.Racers
	}
	if max > k.Racers {
		max = k.Racers
	}
	if ok < min || ok > max {
		c.Failf("%d of %d racing connections were accepted, expected %d to %d (limit %d, %d used it before, %d left)", ok,
			k.Racers, min, max, k.Max, k.Init, k.Leave)
	}
	checkSessions(c, w, append(peers, others...), keys, func(key string, users int) {
		if k.Max > 0 && users > int(k.Max) {
			c.Failf("%d connections use session %s, the limit is %d", users, key, k.Max)
		}
	})
	c.Class("sessions of their own "+k.Own, k.Own != "")
	c.Nontrivial(refused > 0)
	c.Class("race", true)
	c.Class("refused", refused > 0)
}

// ---------------------------------------------------------------------------------------------
// C18: sessions are created and closed visibly and atomically

type c18 struct {
	Seq *sCase `json:",omitempty"`

	// Concurrent creations
	Conns int
	Gates []string
	Ops   []c16op // create, closesrv, drop, close
	Order []int
	Sync  []int `json:",omitempty"`
}

func init() {
	registerNoisy("C18",
		"creating a session failed, or several session operations were in progress at the same time",
		4500, 135000,
		func(t *rapid.T) (c c18) {
			if rapid.Bool().Draw(t, "mode") {
				s := genSCase(t, sessGenOpts{max: []uint{0, 1, 2}, faults: true, fields: true, dups: true, off: true,
					kinds: []string{"create", "create", "create", "create", "closesrv", "closecli", "closekey", "restore",
						"drop", "close", "reconnect", "reconnect", "busy"}, down: true})
				c.Seq = &s
				return
			}
			c.Conns = rapid.IntRange(1, 3).Draw(t, "conns")
			for _, g := range []string{"keygen", "writer", "flush", "flushed", "created", "sockclose", "isconn"} {
				if rapid.Bool().Draw(t, g) {
					c.Gates = append(c.Gates, g)
				}
			}
			m := rapid.IntRange(2, 8).Draw(t, "ops")
			for i := 0; i < m; i++ {
				c.Ops = append(c.Ops, c16op{
					Kind: rapid.SampledFrom([]string{"create", "create", "create", "create", "drop", "close",
						"closesrv"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "conn"),
					Free: rapid.IntRange(0, 2).Draw(t, "free"),
				})
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 5), 8, 8).Draw(t, "order")
			c.Sync = genGates(t)
			return
		},
		func(c *Ctx, k c18) {
			if k.Seq != nil {
				x := newSessExec(c, *k.Seq, "notify")
				for i, o := range k.Seq.Ops {
					x.exec(i, o)
				}
				x.w.checkWriters()
				c.Nontrivial(x.failed > 0)
				c.Class("sequential", true)
				c.Class("failed creation", x.failed > 0)
				return
			}
			runC18(c, k)
		})
}

func runC18(c *Ctx, k c18) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled}, k.Gates...)
	var peers []*peer
	for i := 0; i < k.Conns; i++ {
		peers = append(peers, w.connectGated(0))
	}
	w.gate(k.Sync)
	type creation struct {
		conn int
		t    *task
	}
	var creations []creation
	var others []*task
	closes := map[int]int{}
	gone := map[int]bool{}
	maxParked := 0
	step := func(choice int) bool {
		c.Settle()
		w.checkPanics()
		if l := len(w.sched.Parked()); l > maxParked {
			maxParked = l
		}
		return w.sched.Release(choice) != ""
	}
	for n, o := range k.Ops {
		p := peers[o.Conn]
		switch o.Kind {
		case "create":
			creations = append(creations, creation{o.Conn, goTask(func() error {
				return p.conn.CreateSession(mapInfo{"n": n})
			})})
		case "closesrv":
			closes[o.Conn]++
			others = append(others, goTask(func() error { p.conn.CloseSession(); return nil }))
		case "drop":
			gone[o.Conn] = true
			p.drop(errAbnormal)
		case "close":
			gone[o.Conn] = true
			others = append(others, goTask(func() error { p.conn.Close(); return nil }))
		}
		for j := 0; j < o.Free; j++ {
			step(k.Order[(n+j)%len(k.Order)])
		}
	}
	for i := 0; step(k.Order[i%len(k.Order)]); i++ {
	}
	for _, t := range others {
		if !t.isDone() || t.pan != nil {
			c.Failf("closing a session or connection is stuck or panicked: %v", t.pan)
		}
	}
	succeeded := map[int]int{}
	attempts := map[int]int{}
	for _, cr := range creations {
		if !cr.t.isDone() || cr.t.pan != nil {
			c.Failf("CreateSession on connection %d is stuck or panicked: %v", cr.conn, cr.t.pan)
		}
		attempts[cr.conn]++
		if cr.t.err == nil {
			succeeded[cr.conn]++
		}
	}
	var keys []string
	for i := 0; i < len(creations)+1; i++ {
		keys = append(keys, fmt.Sprintf("key%d", i))
	}
	for i, p := range peers {
		notified, closed := 0, 0
		told := ""
		for _, f := range p.decoded() {
			switch f.Type {
			case tSessCreated:
				notified++
				var enc struct{ K string }
				json.Unmarshal(f.Payload, &enc)
				told = enc.K
			case tSessClosed:
				closed++
				told = ""
			default:
				c.Failf("connection %d received an unexpected message: %+v", i, f)
			}
		}
		hooks := 0
		w.sm.mu.Lock()
		for _, e := range w.sm.created {
			if e.conn == p.id {
				hooks++
			}
		}
		w.sm.mu.Unlock()
		if hooks != succeeded[i] {
			c.Failf("%d sessions were created on connection %d (closed: %t), but the session manager was told about %d",
				succeeded[i], i, gone[i], hooks)
		}
		if notified < succeeded[i] {
			c.Failf("%d sessions were created on connection %d (closed: %t), but the client was notified about %d",
				succeeded[i], i, gone[i], notified)
		}
		has := p.conn.SessionKey()
		if notified > closes[i]+1 {
			c.Failf("connection %d was notified about %d sessions, but at most %d were closed", i, notified, closes[i])
		}
		if gone[i] {
			if has != "" {
				c.Failf("connection %d is closed but has session %s", i, has)
			}
			continue
		}
		if succeeded[i] != notified {
			c.Failf("%d sessions were created on connection %d, but %d notifications were sent", succeeded[i], i, notified)
		}
		if attempts[i] > 0 && succeeded[i] == 0 {
			c.Failf("all %d attempts of creating a session on connection %d failed", attempts[i], i)
		}
		if has != told || (closes[i] == 0 && attempts[i] > 0 && succeeded[i] != 1) {
			c.Failf("connection %d has session %q, the client was told %q, %d of %d creations succeeded", i, has, told,
				succeeded[i], attempts[i])
		}
	}
	checkSessions(c, w, peers, keys, nil)
	c.Nontrivial(maxParked >= 2)
	c.Class("concurrent", true)
}
