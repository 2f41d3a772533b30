package wwcheck

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"wwnoise"
)

// Some of the processes of a check run a copy of webwire-go that's instrumented with synchronisation
// points (see wwinstrument). A case lists the points at which the goroutine that reaches them is held
// up: either until nothing else happens any more (delay), or until the harness releases it (gate).

// genSync generates the numbers of the synchronisation points at which a goroutine is held up
func genSync(t *rapid.T, max int) []int {
	span := rapid.SampledFrom([]int{20, 60, 200, 600}).Draw(t, "span")
	return rapid.SliceOfNDistinct(rapid.IntRange(0, span), 0, max, func(i int) int { return i }).Draw(t, "sync")
}

func goid() int64 {
	var buf [40]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		b = b[:i]
	}
	n, _ := strconv.ParseInt(string(b), 10, 64)
	return n
}

type delayed struct {
	ch    chan struct{}
	since time.Time
}

// delays holds the goroutines that are held up until nothing else happens
type delays struct {
	mu   sync.Mutex
	l    []delayed
	off  bool
	held int
	n    int // number of goroutines released
	stop chan struct{}
}

// hold installs the hook calling park at the given synchronisation points. The goroutine of the harness
// itself is never held up
func (c *Ctx) hold(at []int, park func(site string)) {
	set := make(map[int64]bool, len(at))
	for _, i := range at {
		set[int64(i)] = true
	}
	hits := &c.hits
	main := goid()
	wwnoise.Set(func(site string) {
		n := atomic.AddInt64(hits, 1) - 1
		if !set[n] || goid() == main {
			return
		}
		park(site)
	})
	c.Cleanup(func() { wwnoise.Set(nil) })
}

// Resync counts the synchronisation points from the beginning again, or from one shortly before
func (c *Ctx) Resync(round int) { atomic.StoreInt64(&c.hits, -int64(round*7%31)) }

// Delay holds up goroutines at the given points until nothing else happens any more
func (c *Ctx) Delay(at []int) {
	d := &delays{stop: make(chan struct{})}
	c.delays = d
	// Precedes the other cleanups
	c.hold(at, func(site string) {
		p := delayed{make(chan struct{}), time.Now()}
		d.mu.Lock()
		if d.off {
			d.mu.Unlock()
			return
		}
		d.held++
		d.l = append(d.l, p)
		d.mu.Unlock()
		<-p.ch
	})
	go d.watch()
	c.last = append(c.last, func() {
		wwnoise.Set(nil)
		d.mu.Lock()
		d.off = true
		l := d.l
		d.l = nil
		d.mu.Unlock()
		close(d.stop)
		for _, p := range l {
			close(p.ch)
		}
		c.Class("goroutines held up at synchronisation points", d.held > 0)
	})
}

// release lets one of the goroutines continue
func (d *delays) release(older time.Duration) bool {
	if d == nil {
		return false
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if len(d.l) < 1 || time.Since(d.l[0].since) < older {
		return false
	}
	close(d.l[0].ch)
	d.l = d.l[1:]
	d.n++
	return true
}

func (d *delays) released() int {
	if d == nil {
		return 0
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.n
}

// watch limits the time a goroutine is held up: it may hold a lock the harness itself waits for
func (d *delays) watch() {
	for {
		select {
		case <-d.stop:
			return
		case <-time.After(2 * time.Millisecond):
		}
		for d.release(4 * time.Millisecond) {
		}
	}
}

// noisy is a case run with delays
type noisy[C any] struct {
	Sync []int `json:",omitempty"`
	Case C
}

// registerNoisy registers a property whose cases may be run with delays at synchronisation points
func registerNoisy[C any](
	id, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C),
) {
	register(id, rule, quick, thorough,
		func(t *rapid.T) (n noisy[C]) {
			n.Case = gen(t)
			if rapid.Bool().Draw(t, "delays") {
				n.Sync = genSync(t, 12)
			}
			return
		},
		func(c *Ctx, n noisy[C]) {
			if len(n.Sync) > 0 {
				c.Delay(n.Sync)
			}
			run(c, n.Case)
		})
}

// genGates generates the numbers of the synchronisation points that park goroutines
func genGates(t *rapid.T) []int {
	if !rapid.Bool().Draw(t, "gates") {
		return nil
	}
	return genSync(t, 8)
}

// gate parks goroutines at the given synchronisation points until the harness releases them. The harness
// must not call the API meanwhile, a parked goroutine may hold a lock
func (w *world) gate(at []int) {
	if len(at) < 1 {
		w.c.Resync(0)
		return
	}
	w.sched.Enable("sync", true)
	w.c.hold(at, func(site string) {
		atomic.AddInt64(&w.c.gated, 1)
		w.sched.Point("sync", site)
	})
	w.c.Resync(0)
	w.c.Cleanup(func() {
		w.c.Class("synchronisation points as gates", atomic.LoadInt64(&w.c.gated) > 0)
	})
}
