package wwcheck

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

// Sched lets the harness own the schedule: enabled points park the calling goroutine until the
// harness releases it
type Sched struct {
	mu      sync.Mutex
	enabled map[string]bool
	parked  []*parkedG
	n       int
}

type parkedG struct {
	kind, label string
	n           int
	ch          chan struct{}
}

func newSched(kinds ...string) *Sched {
	s := &Sched{enabled: map[string]bool{}}
	for _, k := range kinds {
		s.enabled[k] = true
	}
	return s
}

// Enable turns points of the given kind on or off
func (s *Sched) Enable(kind string, on bool) {
	s.mu.Lock()
	s.enabled[kind] = on
	s.mu.Unlock()
}

// Point parks the calling goroutine if points of the given kind are enabled
func (s *Sched) Point(kind, label string) {
	if s == nil {
		return
	}
	s.mu.Lock()
	if !s.enabled[kind] {
		s.mu.Unlock()
		return
	}
	p := &parkedG{kind: kind, label: label, n: s.n, ch: make(chan struct{})}
	s.n++
	s.parked = append(s.parked, p)
	s.mu.Unlock()
	<-p.ch
}

// Parked returns the labels of all parked goroutines in a deterministic order
func (s *Sched) Parked() (labels []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sort()
	for _, p := range s.parked {
		labels = append(labels, p.kind+":"+p.label)
	}
	return
}

// Count returns the number of goroutines parked at the given kind of point whose label has the given
// prefix
func (s *Sched) Count(kind, prefix string) (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range s.parked {
		if p.kind == kind && strings.HasPrefix(p.label, prefix) {
			n++
		}
	}
	return
}

func (s *Sched) sort() {
	sort.Slice(s.parked, func(i, j int) bool {
		a, b := s.parked[i], s.parked[j]
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.label != b.label {
			return a.label < b.label
		}
		return a.n < b.n
	})
}

// Release releases one parked goroutine, returns its label or an empty string if there's none
func (s *Sched) Release(choice int) string {
	s.mu.Lock()
	if len(s.parked) < 1 {
		s.mu.Unlock()
		return ""
	}
	s.sort()
	i := choice % len(s.parked)
	p := s.parked[i]
	s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
	s.mu.Unlock()
	close(p.ch)
	return p.kind + ":" + p.label
}

// ReleaseLabel releases a particular goroutine
func (s *Sched) ReleaseLabel(kind, label string) bool {
	s.mu.Lock()
	for i, p := range s.parked {
		if p.kind == kind && p.label == label {
			s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
			s.mu.Unlock()
			close(p.ch)
			return true
		}
	}
	s.mu.Unlock()
	return false
}

// Off disables all points and releases everything
func (s *Sched) Off() {
	s.mu.Lock()
	s.enabled = map[string]bool{}
	parked := s.parked
	s.parked = nil
	s.mu.Unlock()
	for _, p := range parked {
		close(p.ch)
	}
}

// fakeAddr identifies a fake socket
type fakeAddr int

func (a fakeAddr) Network() string { return "fake" }
func (a fakeAddr) String() string  { return fmt.Sprintf("fake:%d", int(a)) }

// fakeTransport is a transport the harness has full control of
type fakeTransport struct {
	mu             sync.Mutex
	options        wwr.ServerOptions
	isShuttingDown wwr.IsShuttingDown
	onNew          wwr.OnNewConnection
	initErr        error
	initialized    int
	socks          []*fakeSock
	shutdownCalls  int
	shutdownErr    error
	serveErr       error
	shutdownAt     int
	done           chan struct{}
	seq            int
	sched          *Sched
	panics         []string
	chunked        bool // deliver messages through a reader
	onShutdown     func()
	addr           *url.URL
}

func newFakeTransport(sched *Sched) *fakeTransport {
	return &fakeTransport{sched: sched, done: make(chan struct{})}
}

func (tr *fakeTransport) next() int {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	tr.seq++
	return tr.seq
}

func (tr *fakeTransport) Initialize(
	o wwr.ServerOptions, sd wwr.IsShuttingDown, n wwr.OnNewConnection,
) error {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	tr.options, tr.isShuttingDown, tr.onNew = o, sd, n
	tr.initialized++
	return tr.initErr
}

func (tr *fakeTransport) Serve() error {
	<-tr.done
	return tr.serveErr
}

func (tr *fakeTransport) Shutdown() error {
	if tr.onShutdown != nil {
		tr.onShutdown()
	}
	at := tr.next()
	tr.mu.Lock()
	tr.shutdownCalls++
	first := tr.shutdownCalls == 1
	if first {
		tr.shutdownAt = at
	}
	socks := append([]*fakeSock{}, tr.socks...)
	tr.mu.Unlock()
	tr.sched.Point("transport", fmt.Sprint(at))
	if first {
		close(tr.done)
	}
	for _, s := range socks {
		s.drop(errClosed)
	}
	return tr.shutdownErr
}

func (tr *fakeTransport) Address() url.URL {
	if tr.addr != nil {
		return *tr.addr
	}
	return url.URL{Scheme: "fake", Host: "host:1"}
}

// connect creates a new connection served by the server
func (tr *fakeTransport) connect(opts wwr.ConnectionOptions, faults Faults) *fakeSock {
	tr.mu.Lock()
	s := &fakeSock{tr: tr, id: len(tr.socks), wake: make(chan struct{}, 1), faults: faults,
		writerLock: make(chan struct{}, 1)}
	tr.socks = append(tr.socks, s)
	tr.mu.Unlock()
	go func() {
		defer func() {
			s.mu.Lock()
			s.served = true
			s.mu.Unlock()
			if r := recover(); r != nil {
				tr.mu.Lock()
				tr.panics = append(tr.panics, fmt.Sprintf("%v\n%s", r, debug.Stack()))
				tr.mu.Unlock()
			}
		}()
		tr.onNew(opts, s)
	}()
	return s
}

// Faults lists the operations of a socket that fail
type Faults struct {
	Writers []int `json:",omitempty"` // indexes of GetWriter calls that fail
	Writes  []int `json:",omitempty"` // indexes of Write calls
	Closes  []int `json:",omitempty"` // indexes of writer closures
}

func has(l []int, i int) bool {
	for _, x := range l {
		if x == i {
			return true
		}
	}
	return false
}

type sentFrame struct {
	data []byte
	seq  int
}

type readRec struct {
	deadline, at, ret time.Time
}

type inItem struct {
	data []byte
	err  *sockErr
	keep bool // the socket remains connected in spite of the error
}

// sockErr is a read error of the fake socket
type sockErr struct {
	msg     string
	isClose bool
}

func (e sockErr) Error() string    { return e.msg }
func (e sockErr) IsCloseErr() bool { return e.isClose }

var errClosed = sockErr{"closed", true}
var errTimeout = sockErr{"read deadline exceeded", false}
var errAbnormal = sockErr{"connection reset", false}

// fakeSock is a server-side socket
type fakeSock struct {
	tr     *fakeTransport
	id     int
	mu     sync.Mutex
	faults Faults

	in     []inItem
	wake   chan struct{}
	closed *sockErr
	served bool

	closeCalls int
	closedAt   int
	frames     []sentFrame
	reads      []readRec
	reading    int
	parsed     int // number of messages passed to the server
	parseErrs  int
	faulted    bool

	// writerLock makes GetWriter block until the previous writer is closed as it's documented
	writerLock chan struct{}

	nWriters, nWrites, nCloses int
	openWriters                int
	writerErrs                 []string
	writeLate                  int // frames flushed after the socket was closed
}

func (s *fakeSock) label() string { return fmt.Sprintf("c%d", s.id) }

func (s *fakeSock) signal() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// send passes a message to the server
func (s *fakeSock) send(b []byte) {
	s.mu.Lock()
	s.in = append(s.in, inItem{data: append([]byte{}, b...)})
	s.mu.Unlock()
	s.signal()
}

// sendErr makes the server's read fail once all messages sent before were read
func (s *fakeSock) sendErr(e sockErr) {
	s.mu.Lock()
	s.in = append(s.in, inItem{err: &e})
	s.mu.Unlock()
	s.signal()
}

// fault makes the server's read fail once all messages sent before were read, the socket remains connected
func (s *fakeSock) fault(e sockErr) {
	s.mu.Lock()
	s.in = append(s.in, inItem{err: &e, keep: true})
	s.mu.Unlock()
	s.signal()
}

// isFaulted returns true if the server was told about a fault
func (s *fakeSock) isFaulted() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.faulted
}

// drop terminates the connection
func (s *fakeSock) drop(e sockErr) {
	at := s.tr.next()
	s.mu.Lock()
	if s.closed == nil {
		s.closed = &e
		s.closedAt = at
	}
	s.mu.Unlock()
	s.signal()
}

func (s *fakeSock) isClosed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closed != nil
}

func (s *fakeSock) pendingIn() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.in)
}

// received returns all frames received by the client
func (s *fakeSock) received() []sentFrame {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]sentFrame{}, s.frames...)
}

func (s *fakeSock) Read(msg *message.Message, deadline time.Time) wwr.ErrSockRead {
	now := time.Now()
	s.mu.Lock()
	n := len(s.reads)
	s.reads = append(s.reads, readRec{deadline: deadline, at: now})
	s.reading++
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.reads[n].ret = time.Now()
		s.reading--
		s.mu.Unlock()
	}()
	for {
		s.mu.Lock()
		if s.closed != nil {
			e := *s.closed
			s.mu.Unlock()
			s.signal()
			return e
		}
		if len(s.in) > 0 {
			it := s.in[0]
			s.in = s.in[1:]
			s.mu.Unlock()
			if it.keep {
				s.mu.Lock()
				s.faulted = true
				s.mu.Unlock()
				return *it.err
			}
			if it.err != nil {
				s.drop(*it.err)
				return *it.err
			}
			var typeParsed bool
			var err error
			if s.tr.chunked {
				typeParsed, err = msg.Read(bytes.NewReader(it.data))
			} else {
				typeParsed, err = msg.ReadBytes(it.data)
			}
			if err != nil || !typeParsed {
				// Same as with all known transports: protocol violations terminate the connection
				s.mu.Lock()
				s.parseErrs++
				s.mu.Unlock()
				return sockErr{fmt.Sprintf("invalid message: %v", err), false}
			}
			s.mu.Lock()
			s.parsed++
			s.mu.Unlock()
			return nil
		}
		s.mu.Unlock()
		<-s.wake
	}
}

func (s *fakeSock) IsConnected() bool {
	s.tr.sched.Point("isconn", s.label())
	return !s.isClosed()
}
func (s *fakeSock) RemoteAddr() net.Addr { return fakeAddr(s.id) }

func (s *fakeSock) Close() error {
	s.tr.sched.Point("sockclose", s.label())
	s.mu.Lock()
	s.closeCalls++
	s.mu.Unlock()
	s.drop(errClosed)
	return nil
}

var errFault = errors.New("injected fault")

// faultErrs are the errors of failing operations, what kind of error it is never matters
var faultErrs = []error{errFault, wwr.ErrDisconnected{Cause: errFault}, io.ErrClosedPipe, wwr.ErrBufferOverflow{},
	wwr.ErrTransmission{Cause: errFault}, io.EOF, wwr.ErrServerShutdown{}, errFault, wwr.ErrSessionNotFound{}}

func faultErr(n int) error { return faultErrs[n%len(faultErrs)] }

func (s *fakeSock) GetWriter() (io.WriteCloser, error) {
	s.tr.sched.Point("writer", s.label())
	s.writerLock <- struct{}{}
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.nWriters
	s.nWriters++
	if has(s.faults.Writers, n) {
		<-s.writerLock
		return nil, faultErr(n)
	}
	if s.closed != nil {
		<-s.writerLock
		return nil, faultErr(s.id + 1)
	}
	s.openWriters++
	return &fakeWriter{sock: s}, nil
}

type fakeWriter struct {
	sock   *fakeSock
	buf    []byte
	closed bool
	failed bool
}

func (w *fakeWriter) Write(p []byte) (int, error) {
	s := w.sock
	s.mu.Lock()
	defer s.mu.Unlock()
	if w.closed {
		s.writerErrs = append(s.writerErrs, "write to a closed writer")
		return 0, errors.New("closed writer")
	}
	n := s.nWrites
	s.nWrites++
	if has(s.faults.Writes, n) {
		w.failed = true
		return 0, faultErr(n)
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *fakeWriter) Close() error {
	w.sock.tr.sched.Point("flush", w.sock.label())
	err := w.flush()
	w.sock.tr.sched.Point("flushed", w.sock.label())
	return err
}

func (w *fakeWriter) flush() error {
	seq := w.sock.tr.next()
	s := w.sock
	s.mu.Lock()
	defer s.mu.Unlock()
	if w.closed {
		s.writerErrs = append(s.writerErrs, "writer closed twice")
		return errors.New("already closed")
	}
	w.closed = true
	s.openWriters--
	<-s.writerLock
	n := s.nCloses
	s.nCloses++
	if has(s.faults.Closes, n) {
		return faultErr(n)
	}
	if s.closed != nil {
		return faultErr(s.id + 1)
	}
	if w.failed || len(w.buf) < 1 {
		// Nothing is transmitted if writing failed
		return nil
	}
	s.frames = append(s.frames, sentFrame{append([]byte{}, w.buf...), seq})
	return nil
}

// logBuf collects log output
type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
