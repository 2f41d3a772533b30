package wwcheck

import (
	"fmt"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// memAddrs maps memchan addresses to connection numbers
var memAddrs sync.Map

// memClient is a client connected through the memchan transport
type memClient struct {
	srv, sock *memchan.Socket
	id        int

	mu      sync.Mutex
	frames  [][]byte
	readErr wwr.ErrSockRead
	done    bool
}

// newMemClient creates a client that's not connected yet
func newMemClient(tr *memchan.Transport, id int) *memClient {
	srv, clt := memchan.NewEntangledSockets(tr)
	memAddrs.Store(fmt.Sprintf("%p", clt), id)
	return &memClient{srv: srv, sock: clt, id: id}
}

// listen reads all messages sent by the server
func (m *memClient) listen(bufSize uint32) {
	go func() {
		msg := message.NewMessage(bufSize)
		for {
			err := m.sock.Read(msg, time.Time{})
			m.mu.Lock()
			if err != nil {
				m.readErr, m.done = err, true
				m.mu.Unlock()
				return
			}
			m.frames = append(m.frames, append([]byte{}, msg.MsgBuffer.Data()...))
			m.mu.Unlock()
			msg.Close()
		}
	}()
}

// write sends raw bytes to the server
func (m *memClient) write(b []byte, chunks ...int) error {
	wr, err := m.sock.GetWriter()
	if err != nil {
		return err
	}
	for _, n := range chunks {
		if n > len(b) {
			n = len(b)
		}
		if _, err := wr.Write(b[:n]); err != nil {
			wr.Close()
			return err
		}
		b = b[n:]
	}
	if _, err := wr.Write(b); err != nil {
		wr.Close()
		return err
	}
	return wr.Close()
}

func (m *memClient) received() [][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([][]byte{}, m.frames...)
}

func (m *memClient) isDone() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.done
}
