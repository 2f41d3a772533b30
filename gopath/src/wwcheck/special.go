package wwcheck

import (
	"errors"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// sessMode determines how requests concerning sessions are answered: sessions are disabled (0), enabled (1) or
// enabled and limited to one connection each (2)
type sessMode int

func genSessMode(t *rapid.T) sessMode {
	return sessMode(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "sessionMode"))
}

func (m sessMode) opts(o worldOpts) worldOpts {
	o.Sessions = wwr.Disabled
	if m > 0 {
		o.Sessions = wwr.Enabled
		o.MaxConns = uint(m - 1)
	}
	return o
}

// outcomeKeys are the keys of sessions which can't be restored, each for a reason of its own, except for the first
var outcomeKeys = []string{"stored", "none", "lookup-error", "too-large", "undeliverable", "stolen"}

// prepareOutcomes provides the sessions, it must be called when all connections are established
func (m sessMode) prepareOutcomes(w *world) {
	if m == 0 {
		return
	}
	w.prepareFailures()
	now := time.Now()
	w.sm.put("stored", stored{now, now, nil})
	w.sm.put("stolen", stored{now, now, nil})
	holder := w.connectGated(0)
	holder.send(frame{Type: tRestore, ID: idOf(1), Payload: []byte("stolen")}.encode())
	if !w.c.Await(func() bool { return len(holder.replies(idOf(1))) > 0 }) {
		w.c.Failf("a session can't be restored: no reply")
	}
	if l := holder.replies(idOf(1)); !isReply(l[0].Type) {
		w.c.Failf("a session can't be restored: %+v", l)
	}
	// It's closed while it's being restored by another connection, but the manager still finds it
	w.sm.onLookup = func(key string) {
		if key == "stolen" {
			w.srv.CloseSession(key)
			w.sm.put(key, stored{now, now, nil})
		}
	}
}

// restoreFrame returns a request to restore one of the sessions
func (m sessMode) restoreFrame(id [8]byte, pick int) frame {
	return frame{Type: tRestore, ID: id, Payload: []byte(outcomeKeys[pick%len(outcomeKeys)])}
}

// answers returns true if a request to restore or close a session may be answered this way
func (m sessMode) answers(restoration bool, pick int, f frame) bool {
	switch {
	case m == 0:
		return f.Type == tReplyDisabled
	case !restoration:
		return isReply(f.Type)
	}
	switch outcomeKeys[pick%len(outcomeKeys)] {
	case "stored", "stolen":
		// Might be closed
		return isReply(f.Type) || f.Type == tReplyNotFound || m == 2 && f.Type == tReplyMaxConns
	case "none":
		return f.Type == tReplyNotFound
	}
	return f.Type == tReplyInternal
}

// prepareFailures provides sessions that can't be restored
func (w *world) prepareFailures() {
	now := time.Now()
	w.sm.put("too-large", stored{now, now, map[string]interface{}{"i": strings.Repeat("x", 70000)}})
	w.sm.put("undeliverable", stored{now, now, map[string]interface{}{"i": func() {}}})
	w.sm.mu.Lock()
	w.sm.lookupErr["lookup-error"] = errors.New("lookup failed")
	w.sm.mu.Unlock()
}
