package wwcheck

import (
	"bytes"
	"runtime"
	"time"
)

// Deciding that something does not happen needs no clock: once every other goroutine of the process
// is blocked on a channel, lock or condition nothing can happen any more until the harness acts.

var stackBuf = make([]byte, 1<<18)

var blockedStates = map[string]bool{
	"chan receive": true, "chan receive (nil chan)": true,
	"chan send": true, "chan send (nil chan)": true,
	"select": true, "select (no cases)": true,
	"semacquire": true, "sync.Mutex.Lock": true,
	"sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true,
	"sync.Cond.Wait": true, "sync.WaitGroup.Wait": true,
	"finalizer wait": true, "cleanup wait": true, "IO wait": true,
}

// idle returns true if all goroutines except for the calling one are blocked
func idle() bool {
	n := 0
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	rest := stackBuf[:n]
	// Skip the calling goroutine
	first := true
	for len(rest) > 0 {
		block := rest
		if i := bytes.Index(rest, []byte("\n\ngoroutine ")); i >= 0 {
			block, rest = rest[:i], rest[i+2:]
		} else {
			rest = nil
		}
		if first {
			first = false
			continue
		}
		open := bytes.IndexByte(block, '[')
		end := bytes.Index(block, []byte("]:"))
		if open < 0 || end < open {
			return false
		}
		state := block[open+1 : end]
		if i := bytes.IndexByte(state, ','); i >= 0 {
			state = state[:i]
		}
		if !blockedStates[string(state)] {
			if bytes.Contains(block, []byte("os/signal.signal_recv")) {
				continue
			}
			return false
		}
		if string(state) == "semacquire" {
			// The runtime itself waits for semaphores too (when it's about to start a garbage collection for
			// instance), such a goroutine goes on
			frame := block[end+3:]
			if !bytes.HasPrefix(frame, []byte("\nsync.")) && !bytes.HasPrefix(frame, []byte("\ninternal/sync.")) {
				return false
			}
		}
	}
	return true
}

const settleCap = 60 * time.Second

// Await waits until cond holds. It returns false if it can't ever hold unless the harness acts
func (c *Ctx) Await(cond func() bool) bool {
	for i := 0; i < 30; i++ {
		if cond() {
			return true
		}
		runtime.Gosched()
	}
	start := time.Now()
	pause := 5 * time.Microsecond
	for {
		if cond() {
			return true
		}
		n := c.delays.released()
		if idle() {
			if c.delays.release(0) || c.delays.released() != n {
				pause = 5 * time.Microsecond
				for i := 0; i < 10; i++ {
					runtime.Gosched()
				}
				continue
			}
			return cond()
		}
		if time.Since(start) > settleCap {
			c.Inconclusive("the system doesn't come to rest")
		}
		time.Sleep(pause)
		if pause < time.Millisecond {
			pause *= 2
		}
	}
}

// Settle waits until nothing happens any more
func (c *Ctx) Settle() {
	for i := 0; i < 10; i++ {
		runtime.Gosched()
	}
	c.Await(func() bool { return false })
}
