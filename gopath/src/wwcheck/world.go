package wwcheck

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log"
	"reflect"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

const longTimeout = 100 * time.Hour

// world is a server with all of its hooks under the control of the harness
type world struct {
	c     *Ctx
	srv   wwr.Server
	tr    *fakeTransport
	sched *Sched
	impl  *implStub
	sm    *smStub
	warn  *logBuf
	errs  *logBuf
	age   int
}

type worldOpts struct {
	Sessions   wwr.OptionValue
	MaxConns   uint
	BufSize    uint32
	Timeout    time.Duration
	SubProto   []byte
	Chunked    bool
	Parser     wwr.SessionInfoParser
	Transport  wwr.Transport // instead of the fake transport
	KeyGen     wwr.SessionKeyGenerator
	NoTeardown bool
	DefaultGen bool
	DefaultSM  bool // no session manager is given
	Age        int  // the number of messages each connection has transmitted beforehand
}

func newWorld(c *Ctx, o worldOpts, gates ...string) *world { return newWorldSM(c, o, nil, gates...) }

// newWorldSM uses the given session manager instead of the stub
func newWorldSM(c *Ctx, o worldOpts, sm wwr.SessionManager, gates ...string) *world {
	w := &world{c: c, sched: newSched(gates...), warn: &logBuf{}, errs: &logBuf{}}
	w.impl = &implStub{w: w, conns: map[int]wwr.Connection{}}
	w.sm = newSM(w.sched)
	w.tr = newFakeTransport(w.sched)
	w.tr.chunked = o.Chunked
	if o.Timeout == 0 {
		o.Timeout = longTimeout
	}
	var tr wwr.Transport = w.tr
	if o.Transport != nil {
		tr = o.Transport
	}
	kg := o.KeyGen
	if kg == nil && !o.DefaultGen {
		kg = &keyGen{sched: w.sched}
	}
	if sm == nil && !o.DefaultSM {
		sm = w.sm
	}
	srv, err := wwr.NewServer(w.impl, wwr.ServerOptions{
		Sessions:              o.Sessions,
		SessionManager:        sm,
		SessionKeyGenerator:   kg,
		SessionInfoParser:     o.Parser,
		MaxSessionConnections: o.MaxConns,
		WarnLog:               log.New(w.warn, "", 0),
		ErrorLog:              log.New(w.errs, "", 0),
		ReadTimeout:           o.Timeout,
		SubProtocolName:       o.SubProto,
		MessageBufferSize:     o.BufSize,
	}, tr)
	if err != nil {
		c.Failf("NewServer failed: %s", err)
	}
	w.srv = srv
	w.age = o.Age
	if !o.NoTeardown {
		c.Cleanup(w.teardown)
	}
	return w
}

// teardown makes all goroutines of the case return
func (w *world) teardown() {
	w.sched.Off()
	w.tr.mu.Lock()
	socks := append([]*fakeSock{}, w.tr.socks...)
	w.tr.mu.Unlock()
	for _, s := range socks {
		s.drop(errClosed)
	}
	w.c.Await(func() bool {
		for _, s := range socks {
			s.mu.Lock()
			served := s.served
			s.mu.Unlock()
			if !served {
				return false
			}
		}
		return true
	})
	w.checkPanics()
}

// checkPanics reports panics of the goroutines serving the connections
func (w *world) checkPanics() {
	w.tr.mu.Lock()
	defer w.tr.mu.Unlock()
	for _, p := range w.tr.panics {
		w.c.Failf("the goroutine serving a connection panicked: %s", p)
	}
}

// connect establishes a connection and waits until the server is ready
func (w *world) connect(limit int) *peer {
	s := w.tr.connect(wwr.ConnectionOptions{ConcurrencyLimit: limit}, Faults{})
	if !w.c.Await(func() bool { return w.impl.conn(s.id) != nil && s.isReading() }) {
		w.checkPanics()
		w.c.Failf("connection %d wasn't established", s.id)
	}
	p := &peer{fakeSock: s, w: w, conn: w.impl.conn(s.id)}
	if w.age > 0 {
		p.age(w.age)
	}
	return p
}

// connectGated establishes a connection with all gates open
func (w *world) connectGated(limit int) *peer {
	w.sched.mu.Lock()
	on := w.sched.enabled
	w.sched.enabled = map[string]bool{}
	w.sched.mu.Unlock()
	p := w.connect(limit)
	w.sched.mu.Lock()
	w.sched.enabled = on
	w.sched.mu.Unlock()
	return p
}

func (s *fakeSock) isReading() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.reading > 0
}

// peer is the client side of an established connection
type peer struct {
	*fakeSock
	w    *world
	conn wwr.Connection
}

// replies returns all frames carrying the given request identifier
func (p *peer) replies(id [8]byte) (l []frame) {
	for _, f := range p.received() {
		d, v := decode(f.data)
		if v != invalid && d.hasID() && d.ID == id {
			l = append(l, d)
		}
	}
	return
}

// frames returns all decoded frames except for the configuration
func (p *peer) decoded() (l []frame) {
	for i, f := range p.received() {
		d, v := decode(f.data)
		if v == invalid {
			p.w.c.Failf("the server sent a malformed frame to connection %d: %x", p.id, f.data)
		}
		if i == 0 && d.Type == tAcceptConf {
			continue
		}
		l = append(l, d)
	}
	return
}

func (p *peer) countType(t byte) (n int) {
	for _, f := range p.decoded() {
		if f.Type == t {
			n++
		}
	}
	return
}

// checkWriters verifies that every writer was closed exactly once
func (w *world) checkWriters() {
	w.tr.mu.Lock()
	socks := append([]*fakeSock{}, w.tr.socks...)
	w.tr.mu.Unlock()
	for _, s := range socks {
		s.mu.Lock()
		open, errs := s.openWriters, s.writerErrs
		s.mu.Unlock()
		if len(errs) > 0 {
			w.c.Failf("connection %d: %s", s.id, errs[0])
		}
		if open > 0 {
			w.c.Failf("connection %d: %d writers were never closed", s.id, open)
		}
	}
}

// go runs f concurrently and returns a handle
type task struct {
	done bool
	mu   sync.Mutex
	err  error
	pan  interface{}
}

func (t *task) isDone() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.done
}

func goTask(f func() error) *task {
	t := &task{}
	go func() {
		defer func() {
			r := recover()
			t.mu.Lock()
			t.pan = r
			t.done = true
			t.mu.Unlock()
		}()
		err := f()
		t.mu.Lock()
		t.err = err
		t.mu.Unlock()
	}()
	return t
}

// implStub is the server implementation
type implStub struct {
	w  *world
	mu sync.Mutex

	conns        map[int]wwr.Connection
	connectedAt  []connEvent
	disconnected []disconnEvent

	// Hooks, may be nil
	onConnected    func(id int, conn wwr.Connection)
	onRequest      func(id int, conn wwr.Connection, m wwr.Message) (wwr.Payload, error)
	onSignal       func(id int, conn wwr.Connection, m wwr.Message)
	onDisconnected func(id int, conn wwr.Connection)
	opts           func(id int, o wwr.ConnectionOptions)
}

type connEvent struct{ id, seq int }
type disconnEvent struct {
	id, seq int
	active  bool
	err     error
}

func connID(conn wwr.Connection) int {
	if a, ok := conn.RemoteAddr().(fakeAddr); ok {
		return int(a)
	}
	if id, ok := memAddrs.Load(conn.RemoteAddr().String()); ok {
		return id.(int)
	}
	return -1
}

func (i *implStub) conn(id int) wwr.Connection {
	i.mu.Lock()
	defer i.mu.Unlock()
	return i.conns[id]
}

func (i *implStub) numConnected(id int) (n int) {
	i.mu.Lock()
	defer i.mu.Unlock()
	for _, e := range i.connectedAt {
		if e.id == id {
			n++
		}
	}
	return
}

func (i *implStub) numDisconnected(id int) (n int) {
	i.mu.Lock()
	defer i.mu.Unlock()
	for _, e := range i.disconnected {
		if e.id == id {
			n++
		}
	}
	return
}

func (i *implStub) OnClientConnected(o wwr.ConnectionOptions, conn wwr.Connection) {
	id := connID(conn)
	seq := i.w.tr.next()
	i.mu.Lock()
	i.conns[id] = conn
	i.connectedAt = append(i.connectedAt, connEvent{id, seq})
	i.mu.Unlock()
	if i.opts != nil {
		i.opts(id, o)
	}
	i.w.sched.Point("connected", fmt.Sprintf("c%d", id))
	if i.onConnected != nil {
		i.onConnected(id, conn)
	}
}

func (i *implStub) OnClientDisconnected(conn wwr.Connection, err error) {
	id := connID(conn)
	seq := i.w.tr.next()
	i.mu.Lock()
	i.disconnected = append(i.disconnected, disconnEvent{id, seq, conn.IsActive(), err})
	i.mu.Unlock()
	if i.onDisconnected != nil {
		i.onDisconnected(id, conn)
	}
}

func (i *implStub) OnSignal(_ context.Context, conn wwr.Connection, m wwr.Message) {
	if i.onSignal != nil && string(m.Name()) != agingName {
		i.onSignal(connID(conn), conn, m)
	}
}

func (i *implStub) OnRequest(
	_ context.Context, conn wwr.Connection, m wwr.Message,
) (wwr.Payload, error) {
	if i.onRequest != nil && string(m.Name()) != agingName {
		return i.onRequest(connID(conn), conn, m)
	}
	return wwr.Payload{}, nil
}

// keyGen generates predictable session keys
type keyGen struct {
	sched *Sched
	mu    sync.Mutex
	n     int
	keys  []string // overrides
}

func (g *keyGen) Generate() string {
	g.mu.Lock()
	n := g.n
	g.n++
	key := fmt.Sprintf("key%d", n)
	if n < len(g.keys) {
		key = g.keys[n]
	}
	g.mu.Unlock()
	g.sched.Point("keygen", key)
	return key
}

// stored is a session in the storage of the session manager
type stored struct {
	Creation, LastLookup time.Time
	Info                 map[string]interface{}
}

// smStub is an in-memory session manager
type smStub struct {
	sched *Sched
	mu    sync.Mutex
	seq   int

	sessions map[string]stored
	created  []smEvent
	closed   []smEvent
	lookups  []smEvent

	createErr  map[string]error
	lookupErr  map[string]error
	closeErr   map[string]error
	closePan   map[string]func()
	lookupBoth bool // a failing lookup returns a session nevertheless
	tombstones bool // sessions closed before OnSessionCreated was done aren't stored

	// Hooks, may be nil
	onCreated func(conn wwr.Connection)
	onLookup  func(key string)
	onClosed  func(key string)
}

type smEvent struct {
	key  string
	conn int
}

func newSM(sched *Sched) *smStub {
	return &smStub{
		sched: sched, sessions: map[string]stored{},
		createErr: map[string]error{}, lookupErr: map[string]error{}, closeErr: map[string]error{},
		closePan: map[string]func(){},
	}
}

func count(l []smEvent, key string) (n int) {
	for _, e := range l {
		if e.key == key {
			n++
		}
	}
	return
}

func (s *smStub) numClosed(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return count(s.closed, key)
}

func (s *smStub) numCreated(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return count(s.created, key)
}

func (s *smStub) put(key string, st stored) {
	s.mu.Lock()
	s.sessions[key] = st
	s.mu.Unlock()
}

func (s *smStub) OnSessionCreated(conn wwr.Connection) error {
	sess := conn.Session()
	if sess == nil {
		// Closed in the meantime
		s.mu.Lock()
		s.created = append(s.created, smEvent{"", connID(conn)})
		s.mu.Unlock()
		return nil
	}
	if s.onCreated != nil {
		s.onCreated(conn)
	}
	s.sched.Point("created", sess.Key)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.created = append(s.created, smEvent{sess.Key, connID(conn)})
	if err := s.createErr[sess.Key]; err != nil {
		return err
	}
	if s.tombstones {
		if count(s.closed, sess.Key) > 0 {
			return nil
		}
	}
	s.sessions[sess.Key] = stored{sess.Creation, sess.LastLookup, wwr.SessionInfoToVarMap(sess.Info)}
	return nil
}

func (s *smStub) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	if s.onLookup != nil {
		s.onLookup(key)
	}
	s.sched.Point("prelookup", key)
	s.mu.Lock()
	s.lookups = append(s.lookups, smEvent{key, -1})
	err, both := s.lookupErr[key], s.lookupBoth
	st, ok := s.sessions[key]
	s.mu.Unlock()
	// The result is determined, but not returned yet
	s.sched.Point("lookup", key)
	if err != nil && both {
		return wwr.NewSessionLookupResult(st.Creation, st.LastLookup, st.Info), err
	} else if err != nil {
		return nil, err
	}
	if !ok {
		return nil, nil
	}
	return wwr.NewSessionLookupResult(st.Creation, st.LastLookup, st.Info), nil
}

func (s *smStub) OnSessionClosed(key string) error {
	if s.onClosed != nil {
		s.onClosed(key)
	}
	s.sched.Point("closed", key)
	s.mu.Lock()
	s.closed = append(s.closed, smEvent{key, -1})
	err, pan := s.closeErr[key], s.closePan[key]
	if err == nil && pan == nil {
		delete(s.sessions, key)
	}
	s.mu.Unlock()
	if pan != nil {
		deliberately(pan)
	}
	return err
}

// mapInfo is a trivial session info implementation
type mapInfo map[string]interface{}

func (m mapInfo) Fields() (l []string) {
	for k := range m {
		l = append(l, k)
	}
	return
}
func (m mapInfo) Value(k string) interface{} { return m[k] }
func (m mapInfo) Copy() wwr.SessionInfo {
	c := mapInfo{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func bytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func jsonEqual(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

var errSecret = errors.New("secret-4711")
