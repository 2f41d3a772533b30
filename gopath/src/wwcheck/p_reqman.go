package wwcheck

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	requestmanager "github.com/qbeon/webwire-go/requestManager"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C26: every pending request is resolved exactly once, by the first reply, failure or cancellation

type c26op struct {
	Kind string // create, await, fulfill, fail, cancel, unknown
	Req  int
	Enc  int  `json:",omitempty"`
	Pay  Blob `json:",omitempty"`
	Dead bool `json:",omitempty"` // the context is done already
	Ctx  int  `json:",omitempty"` // kind of the context
}

type c26race struct {
	Fulfill, Fail int
	Cancel        bool
	Dead          bool `json:",omitempty"` // it's canceled before the reply is awaited
	Ctx           int  `json:",omitempty"` // kind of the context
	Yields        []int
}

type c26 struct {
	Ops   []c26op   `json:",omitempty"`
	Races []c26race `json:",omitempty"`
	Par   int       `json:",omitempty"`
}

var errFailed = errors.New("request failed")

func init() {
	registerNoisy("C26",
		"a request was resolved several times, or by several goroutines concurrently",
		6000, 180000,
		func(t *rapid.T) (c c26) {
			if rapid.Bool().Draw(t, "race") {
				c.Par = rapid.IntRange(1, 4).Draw(t, "par")
				n := rapid.IntRange(1, 6).Draw(t, "n")
				for i := 0; i < n; i++ {
					c.Races = append(c.Races, c26race{
						Fulfill: rapid.IntRange(0, 3).Draw(t, "fulfill"), Fail: rapid.IntRange(0, 2).Draw(t, "fail"),
						Cancel: rapid.IntRange(0, 2).Draw(t, "cancel") == 0,
						Dead:   rapid.IntRange(0, 3).Draw(t, "dead") == 0, Ctx: rapid.IntRange(0, 4).Draw(t, "ctx"),
						Yields: rapid.SliceOfN(rapid.IntRange(0, 3), 6, 6).Draw(t, "yields"),
					})
				}
				return
			}
			n := rapid.IntRange(2, 25).Draw(t, "ops")
			for i := 0; i < n; i++ {
				o := c26op{
					Kind: rapid.SampledFrom([]string{"create", "create", "await", "await", "fulfill", "fulfill", "fail", "cancel",
						"unknown", "create", "await", "fulfill", "many", "pile"}).Draw(t, "kind"),
					Req: rapid.IntRange(0, 5).Draw(t, "req"),
				}
				switch o.Kind {
				case "pile":
					if !genRarely(t, "really") {
						o.Kind = "create"
					}
				case "fulfill":
					o.Enc = genEnc(t)
					o.Pay = evenIf(o.Enc == encUtf16, genBlob(t, 0, 60, "pay"))
				case "await":
					o.Dead = rapid.IntRange(0, 5).Draw(t, "dead") == 0
					o.Ctx = rapid.IntRange(0, 3).Draw(t, "ctx")
				}
				c.Ops = append(c.Ops, o)
			}
			return
		},
		func(c *Ctx, k c26) {
			if k.Races != nil {
				runC26race(c, k)
				return
			}
			runC26(c, k)
		})
}

type c26req struct {
	req      *requestmanager.Request
	pending  bool
	awaited  bool
	cancel   context.CancelFunc
	ctx      context.Context
	t        *task
	reply    wwr.Reply
	enc      int
	payload  []byte
	failed   bool
	canceled bool
	exceeded bool // by having passed its deadline
}

func replyMsg(id [8]byte, enc int, payload []byte) *message.Message {
	m := message.NewMessage(256)
	b := frame{Type: byte(tReply + enc), Enc: enc, ID: id, Payload: payload}.encode()
	if ok, err := m.ReadBytes(b); !ok || err != nil {
		panic(failure{fmt.Sprintf("a valid reply was refused: %v", err)})
	}
	return m
}

func runC26(c *Ctx, k c26) {
	mng := requestmanager.NewRequestManager()
	var reqs []*c26req
	ids := map[[8]byte]bool{}
	again := 0
	var pile []*requestmanager.Request // requests pending until the end
	defer func() {
		for _, r := range reqs {
			if r.cancel != nil {
				r.cancel()
			}
		}
	}()
	for n, o := range k.Ops {
		step := fmt.Sprintf("op %d (%s request %d)", n, o.Kind, o.Req)
		if o.Kind == "many" {
			// Lots of requests, all of which are resolved immediately
			before := mng.PendingRequests()
			for i := 0; i < o.Req*300; i++ {
				r := mng.Create()
				if ids[r.Identifier] {
					c.Failf("%s: the identifier %x was assigned twice", step, r.Identifier)
				}
				ids[r.Identifier] = true
				if n := mng.PendingRequests(); n != before+1 {
					c.Failf("%s: %d requests are reported pending, expected %d", step, n, before+1)
				}
				if !mng.Fulfill(replyMsg(r.Identifier, 0, nil)) {
					c.Failf("%s: Fulfill returned false", step)
				}
			}
		} else if o.Kind == "pile" {
			for i := 0; i < []int{30, 65, 128, 257, 600, 1100}[o.Req]; i++ {
				r := mng.Create()
				if ids[r.Identifier] {
					c.Failf("%s: the identifier %x was assigned twice", step, r.Identifier)
				}
				ids[r.Identifier] = true
				pile = append(pile, r)
			}
		} else if o.Kind == "create" {
			r := &c26req{req: mng.Create(), pending: true}
			if ids[r.req.Identifier] {
				c.Failf("%s: the identifier %x was assigned twice", step, r.req.Identifier)
			}
			ids[r.req.Identifier] = true
			if !bytes.Equal(r.req.Identifier[:], r.req.IdentifierBytes) {
				c.Failf("%s: the identifier is both %x and %x", step, r.req.Identifier, r.req.IdentifierBytes)
			}
			reqs = append(reqs, r)
		} else if o.Kind == "unknown" {
			id := idOf(1<<40 + uint64(o.Req))
			if mng.Fulfill(replyMsg(id, 0, nil)) || mng.Fail(id, errFailed) || mng.IsPending(id) {
				c.Failf("%s: a request that was never created was resolved", step)
			}
		} else {
			if len(reqs) < 1 {
				continue
			}
			r := reqs[o.Req%len(reqs)]
			if !r.pending && (o.Kind == "fulfill" || o.Kind == "fail") {
				again++
			}
			switch o.Kind {
			case "await":
				if r.awaited {
					continue
				}
				r.awaited = true
				r.ctx, r.cancel = c26ctx(o.Ctx)
				if o.Dead {
					r.ctx, r.cancel = context.WithDeadline(context.Background(), time.Unix(1, 0))
					r.exceeded = true
					// Has no effect on requests that are resolved already
					r.canceled = r.pending
				}
				r.t = goTask(func() (err error) {
					r.reply, err = r.req.AwaitReply(r.ctx)
					return
				})
			case "cancel":
				if !r.awaited {
					continue
				}
				r.cancel()
				if r.pending {
					r.canceled = true
				}
			case "fulfill":
				p := o.Pay.bytes()
				var ok bool
				t := goTask(func() error { ok = mng.Fulfill(replyMsg(r.req.Identifier, o.Enc, p)); return nil })
				c.Settle()
				if !t.isDone() || t.pan != nil {
					c.Failf("%s: Fulfill doesn't return or panicked: %v", step, t.pan)
				}
				if ok != r.pending {
					c.Failf("%s: Fulfill returned %t, pending: %t", step, ok, r.pending)
				}
				if ok {
					r.pending, r.enc, r.payload = false, o.Enc, p
				}
			case "fail":
				var ok bool
				t := goTask(func() error { ok = mng.Fail(r.req.Identifier, errFailed); return nil })
				c.Settle()
				if !t.isDone() || t.pan != nil {
					c.Failf("%s: Fail doesn't return or panicked: %v", step, t.pan)
				}
				if ok != r.pending {
					c.Failf("%s: Fail returned %t, pending: %t", step, ok, r.pending)
				}
				if ok {
					r.pending, r.failed = false, true
				}
			}
		}
		c.Settle()
		want := len(pile)
		for i, r := range pile {
			if !mng.IsPending(r.Identifier) {
				c.Failf("%s: request %d of %d created at once isn't pending", step, i, len(pile))
			}
		}
		for i, r := range reqs {
			if r.canceled && r.t != nil && r.t.isDone() {
				r.pending = false
			}
			if r.pending {
				want++
			}
			if mng.IsPending(r.req.Identifier) != r.pending {
				c.Failf("%s: request %d: pending is %t", step, i, !r.pending)
			}
			if !r.awaited {
				continue
			}
			done := r.t.isDone()
			if r.t.pan != nil {
				c.Failf("%s: AwaitReply panicked: %v", step, r.t.pan)
			}
			if done != (!r.pending || r.canceled) {
				c.Failf("%s: AwaitReply of request %d returned: %t, pending: %t, canceled: %t", step, i, done, r.pending,
					r.canceled)
			}
			if done {
				checkReply(c, fmt.Sprintf("%s: request %d", step, i), r)
			}
		}
		if got := mng.PendingRequests(); got != want {
			c.Failf("%s: %d requests are reported pending, expected %d", step, got, want)
		}
	}
	for i := range pile {
		r := pile[(i*7)%len(pile)]
		if len(pile)%7 == 0 {
			r = pile[i]
		}
		before := mng.PendingRequests()
		payload := []byte(fmt.Sprintf("reply %d", i))
		fail := i%5 == 2
		if fail && !mng.Fail(r.Identifier, errFailed) || !fail && !mng.Fulfill(replyMsg(r.Identifier, 0, payload)) {
			c.Failf("one of %d requests pending can't be resolved", len(pile))
		}
		if n := mng.PendingRequests(); n != before-1 || mng.IsPending(r.Identifier) {
			c.Failf("%d requests are pending, %d after one of them was resolved", before, n)
		}
		reply, err := r.AwaitReply(context.Background())
		if fail != (err != nil) || fail && err != errFailed || !fail && string(reply.Payload()) != string(payload) {
			c.Failf("one of %d requests pending: the reply is %v, %v, expected %q, failed: %t", len(pile), reply, err, payload, fail)
		}
	}
	c.Nontrivial(again > 0)
	c.Class("resolved again", again > 0)
	c.Class("many pending requests", len(pile) > 0)
}

type c26key struct{}

// ownCtx is a context that isn't one of the standard library
type ownCtx struct{ context.Context }

// c26ctx creates a context that is canceled by the returned function: plain, having a deadline that isn't reached, being
// canceled through its parent, of a custom type, or having a deadline that is about to be reached
func c26ctx(kind int) (context.Context, context.CancelFunc) {
	switch kind {
	case 1:
		return context.WithTimeout(context.Background(), 24*time.Hour)
	case 2:
		parent, cancel := context.WithTimeout(context.Background(), 24*time.Hour)
		child, cancelChild := context.WithCancel(context.WithValue(parent, c26key{}, "value"))
		return child, func() { cancel(); cancelChild() }
	case 3:
		ctx, cancel := context.WithCancel(context.Background())
		return ownCtx{ctx}, cancel
	case 4:
		return context.WithTimeout(context.Background(), 200*time.Microsecond)
	}
	return context.WithCancel(context.Background())
}

func isCtxErr(err error) bool {
	switch err.(type) {
	case wwr.ErrCanceled, wwr.ErrDeadlineExceeded:
		return true
	}
	return false
}

func checkReply(c *Ctx, what string, r *c26req) {
	err := r.t.err
	if r.canceled {
		if !isCtxErr(err) {
			c.Failf("%s was canceled while it was pending, but the result is %v, %v", what, r.reply, err)
		}
		_, exceeded := err.(wwr.ErrDeadlineExceeded)
		if exceeded != r.exceeded {
			c.Failf("%s: unexpected context error %T", what, err)
		}
		if wwr.IsErrTimeout(err) != exceeded || wwr.IsErrCanceled(err) == exceeded {
			c.Failf("%s: %T is a timeout: %t, a cancellation: %t", what, err, wwr.IsErrTimeout(err), wwr.IsErrCanceled(err))
		}
		if r.reply != nil {
			c.Failf("%s: both a reply and an error were returned", what)
		}
		return
	}
	if r.failed {
		if err != errFailed || r.reply != nil {
			c.Failf("%s failed, but the result is %v, %v", what, r.reply, err)
		}
		return
	}
	if err != nil || r.reply == nil {
		c.Failf("%s was fulfilled, but the result is %v, %v", what, r.reply, err)
	}
	if !bytes.Equal(r.reply.Payload(), r.payload) || int(r.reply.PayloadEncoding()) != r.enc {
		c.Failf("%s was fulfilled with %x (%d), but the result is %x (%d)", what, r.payload, r.enc, r.reply.Payload(),
			r.reply.PayloadEncoding())
	}
	if r.enc != encUtf16 {
		p, err := r.reply.PayloadUtf8()
		if r.enc == encUtf8 && (err != nil || !bytes.Equal(p, r.payload)) {
			c.Failf("%s: the UTF8 payload is %q, %v, expected %q", what, p, err, r.payload)
		}
	}
}

func runC26race(c *Ctx, k c26) {
	mng := requestmanager.NewRequestManager()
	type attempt struct {
		ok  bool
		msg []byte
		err error
	}
	yield := func(n int) {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
	var idMu sync.Mutex
	ids := map[[8]byte]bool{}
	var contended atomic.Int32
	run := func(g, i int, r c26race) error {
		req := mng.Create()
		idMu.Lock()
		dup := ids[req.Identifier]
		ids[req.Identifier] = true
		idMu.Unlock()
		if dup {
			return fmt.Errorf("identifier %x was assigned twice", req.Identifier)
		}
		if !mng.IsPending(req.Identifier) {
			return errors.New("a new request isn't pending")
		}
		if n := mng.PendingRequests(); n < 1 || n > k.Par {
			return fmt.Errorf("%d requests are pending, there are 1 to %d", n, k.Par)
		}
		ctx, cancel := c26ctx(r.Ctx)
		defer cancel()
		var mu sync.Mutex
		var attempts []attempt
		var wg sync.WaitGroup
		start := make(chan struct{})
		n := 0
		spawn := func(f func()) {
			y := r.Yields[n%len(r.Yields)]
			n++
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				yield(y)
				f()
			}()
		}
		for j := 0; j < r.Fulfill; j++ {
			spawn(func() {
				pay := []byte(fmt.Sprintf("%d/%d/%d", g, i, j))
				ok := mng.Fulfill(replyMsg(req.Identifier, 0, pay))
				mu.Lock()
				attempts = append(attempts, attempt{ok: ok, msg: pay})
				mu.Unlock()
			})
		}
		for j := 0; j < r.Fail; j++ {
			spawn(func() {
				err := fmt.Errorf("failure %d", j)
				ok := mng.Fail(req.Identifier, err)
				mu.Lock()
				attempts = append(attempts, attempt{ok: ok, err: err})
				mu.Unlock()
			})
		}
		cancels := r.Cancel || r.Fulfill+r.Fail == 0 || r.Dead || r.Ctx == 4
		if r.Dead {
			cancel()
		} else if cancels {
			spawn(cancel)
		}
		if r.Fulfill+r.Fail > 1 || (cancels && r.Fulfill+r.Fail > 0) {
			contended.Add(1)
		}
		close(start)
		reply, err := req.AwaitReply(ctx)
		// Late attempts must not block either
		wg.Wait()
		var winner *attempt
		for j := range attempts {
			if attempts[j].ok {
				if winner != nil {
					return fmt.Errorf("the request was resolved twice: %+v and %+v", winner, attempts[j])
				}
				winner = &attempts[j]
			}
		}
		if mng.IsPending(req.Identifier) {
			return errors.New("the request is still pending after it was resolved")
		}
		if mng.Fulfill(replyMsg(req.Identifier, 0, nil)) || mng.Fail(req.Identifier, errFailed) {
			return errors.New("the request was resolved again")
		}
		switch {
		case err != nil && isCtxErr(err):
			if !cancels {
				return fmt.Errorf("the request wasn't canceled, but failed with %T", err)
			}
			if winner != nil || reply != nil {
				return fmt.Errorf("the request failed with %T, but the attempt %+v succeeded (reply %v)", err, winner, reply)
			}
		case err != nil:
			if winner == nil || winner.err != err || reply != nil {
				return fmt.Errorf("the request failed with %v, the successful attempt was %+v", err, winner)
			}
		default:
			if winner == nil || reply == nil || !bytes.Equal(reply.Payload(), winner.msg) {
				return fmt.Errorf("the reply is %v, the successful attempt was %+v", reply, winner)
			}
		}
		return nil
	}
	var tasks []*task
	for g := 0; g < k.Par; g++ {
		tasks = append(tasks, goTask(func() error {
			for i, r := range k.Races {
				if err := run(g, i, r); err != nil {
					return err
				}
			}
			return nil
		}))
	}
	c.Settle()
	for _, t := range tasks {
		if !t.isDone() {
			c.Failf("a request, or an attempt of resolving it, is stuck")
		}
		if t.pan != nil {
			c.Failf("panic: %v", t.pan)
		}
		if t.err != nil {
			c.Failf("%s", t.err)
		}
	}
	if n := mng.PendingRequests(); n != 0 {
		c.Failf("%d requests are pending though all of them were resolved", n)
	}
	c.Nontrivial(contended.Load() > 0)
	c.Class("contended", contended.Load() > 0)
}
