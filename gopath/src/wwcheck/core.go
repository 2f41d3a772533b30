// Package wwcheck decides the properties of /verif/properties.jsonl by generated-input search.
//
// Every property is a pair gen/run: gen draws a JSON-serialisable case with rapid and run executes
// the case against webwire-go and its oracle. A case therefore is a replay file of its own.
package wwcheck

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
	"testing"
)

// Ctx is handed to the run function of a property
type Ctx struct {
	T          *testing.T
	nontrivial bool
	classes    map[string]int
	cleanups   []func()
	last       []func() // called before the cleanups
	delays     *delays
	gated      int64
	hits       int64 // number of synchronisation points reached
	dir        string
}

type failure struct{ msg string }
type inconclusive struct{ msg string }

// Failf reports a violation and ends the case
func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Inconclusive ends the case without a verdict
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, a...)})
}

// Nontrivial marks the case as non-trivial if cond holds
func (c *Ctx) Nontrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Class counts the case as a member of a class
func (c *Ctx) Class(name string, cond bool) {
	if cond {
		c.classes[name]++
	}
}

// Cleanup registers a function to be called after the case
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// TempDir returns a scratch directory that's removed after the case
func (c *Ctx) TempDir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp("", "wwcheck")
		if err != nil {
			panic(harnessError(err.Error()))
		}
		c.dir = d
	}
	return c.dir
}

type harnessErr string

func harnessError(s string) harnessErr { return harnessErr(s) }

// Prop is a registered property
type Prop struct {
	ID     string
	Rule   string
	Checks map[string]int // cases per shard by tier
	gen    func(*rapid.T) interface{}
	decode func([]byte) (interface{}, error)
	run    func(*Ctx, interface{})
}

var props = map[string]*Prop{}

func register[C any](
	id, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C),
) {
	props[id] = &Prop{
		ID: id, Rule: rule,
		Checks: map[string]int{"quick": quick, "thorough": thorough},
		gen:    func(t *rapid.T) interface{} { return gen(t) },
		decode: func(b []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(ctx *Ctx, c interface{}) { run(ctx, c.(C)) },
	}
}

// verdict is the outcome of one case
type verdict struct {
	Fail         string // a violation
	Inconclusive string
	Harness      string // an error of the check itself
	nontrivial   bool
	classes      map[string]int
}

const repoPkg = "github.com/qbeon/webwire-go"

// blame tells whether a panic's stack trace originates from webwire-go rather than from this harness
func blame(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.throw(") ||
			strings.HasPrefix(l, "runtime.fatal(") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "wwcheck.deliberately(") {
			// Uncontained
			return strings.Contains(stack, "\n"+repoPkg) || strings.Contains(stack, "\ncreated by "+repoPkg)
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, repoPkg) {
			return true
		}
		if strings.HasPrefix(l, "wwcheck.") {
			return false
		}
	}
	return false
}

// deliberately executes a hook that panics. The library is to be blamed if the panic isn't contained
//
//go:noinline
func deliberately(f func()) {
	f()
	runtime.KeepAlive(&f)
}

// runCase executes one case
func (p *Prop) runCase(t *testing.T, c interface{}) (v verdict) {
	ctx := &Ctx{T: t, classes: map[string]int{}}
	defer func() {
		for _, f := range ctx.last {
			f()
		}
		for i := len(ctx.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() {
					if r := recover(); r != nil && v.Fail == "" && v.Harness == "" {
						stack := string(debug.Stack())
						if f, ok := r.(failure); ok {
							v.Fail = f.msg
						} else if blame(stack) {
							v.Fail = fmt.Sprintf("panic during teardown: %v\n%s", r, stack)
						} else if _, ok := r.(inconclusive); !ok {
							v.Harness = fmt.Sprintf("teardown: %v\n%s", r, stack)
						}
					}
				}()
				ctx.cleanups[i]()
			}()
		}
		if ctx.dir != "" {
			os.RemoveAll(ctx.dir)
		}
		v.nontrivial = ctx.nontrivial
		v.classes = ctx.classes
	}()
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case failure:
			v.Fail = r.msg
		case inconclusive:
			v.Inconclusive = r.msg
		default:
			stack := string(debug.Stack())
			if blame(stack) {
				v.Fail = fmt.Sprintf("panic: %v\n%s", r, stack)
			} else if e, ok := r.(runtime.Error); ok {
				// Such as a nil pointer returned where there's always a value
				v.Fail = fmt.Sprintf("webwire-go returned what it never returns: %v\n%s", e, stack)
			} else {
				v.Harness = fmt.Sprintf("%v\n%s", r, stack)
			}
		}
	}()
	p.run(ctx, c)
	return
}

// Stats is the result file of one shard
type Stats struct {
	Property     string            `json:"property"`
	Rule         string            `json:"rule"`
	Evaluations  int               `json:"evaluations"`
	Nontrivial   int               `json:"nontrivial"`
	Inconclusive int               `json:"inconclusive"`
	Classes      map[string]int    `json:"classes"`
	Samples      []json.RawMessage `json:"samples"`
	Failure      string            `json:"failure,omitempty"`
	Case         json.RawMessage   `json:"case,omitempty"`
	Harness      string            `json:"harness,omitempty"`
	TimeUp       bool              `json:"time_up,omitempty"`
	Hashes       string            `json:"hashes"` // path of the file holding hashes of distinct non-trivial cases
}

type collector struct {
	st     Stats
	hashes map[uint64]struct{}
	start  time.Time
	best   map[int]json.RawMessage
}

func (c *collector) add(js []byte, v verdict) {
	c.st.Evaluations++
	for k, n := range v.classes {
		c.st.Classes[k] += n
	}
	if v.Inconclusive != "" {
		c.st.Inconclusive++
		return
	}
	if v.nontrivial {
		h := sha256.Sum256(js)
		k := binary.LittleEndian.Uint64(h[:])
		if _, seen := c.hashes[k]; !seen {
			c.hashes[k] = struct{}{}
			n := len(c.hashes)
			if len(js) < 2000 && (n == 1 || n == 10 || n == 100) {
				c.st.Samples = append(c.st.Samples, append(json.RawMessage{}, js...))
			}
		}
		c.st.Nontrivial++
	}
}

func (c *collector) save(path string) error {
	c.st.Hashes = path + ".hashes"
	keys := make([]uint64, 0, len(c.hashes))
	for k := range c.hashes {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	buf := make([]byte, 0, 8*len(keys))
	for _, k := range keys {
		buf = binary.LittleEndian.AppendUint64(buf, k)
	}
	if err := os.WriteFile(c.st.Hashes, buf, 0644); err != nil {
		return err
	}
	js, err := json.Marshal(c.st)
	if err != nil {
		return err
	}
	return os.WriteFile(path, js, 0644)
}
