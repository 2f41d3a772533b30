package wwcheck

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------
// C19: a restored session is the stored session, for both the client and the server

type instant struct {
	Sec, Nsec int64
	Zone      int // minutes
}

func (i instant) time() time.Time {
	tm := time.Unix(i.Sec, i.Nsec)
	if i.Zone == 0 {
		return tm.UTC()
	}
	return tm.In(time.FixedZone("", i.Zone*60))
}

func genInstant(t *rapid.T, label string) instant {
	return instant{
		Sec: rapid.OneOf(
			rapid.SampledFrom([]int64{0, -1, -62135596800, 253402300799, 1 << 31, 1600000000}),
			rapid.Int64Range(0, 4000000000)).Draw(t, label),
		Nsec: rapid.SampledFrom([]int64{0, 1, 999999999, 123000000, 500}).Draw(t, label+"Nsec"),
		Zone: rapid.SampledFrom([]int{0, 0, 60, -330, 14 * 60}).Draw(t, label+"Zone"),
	}
}

type c19 struct {
	Key        string
	Creation   instant
	LastLookup instant
	NoInfo     bool           `json:",omitempty"`
	Info       map[string]val `json:",omitempty"`
	Big        int            `json:",omitempty"` // length of an additional info field
	Bad        string         `json:",omitempty"` // makes the info impossible to encode
	Buf        uint32
	Custom     bool // use a custom info parser
	Had        bool // the connections have another session before
	Conns      int
	Sessions   int // number of other sessions
	Again      int `json:",omitempty"` // the number of times each connection restores the session again after it has changed
}

func init() {
	registerNoisy("C19",
		"the session carries nested info or can't be delivered",
		6000, 180000,
		func(t *rapid.T) (c c19) {
			c.Key = rapid.OneOf(
				rapid.SampledFrom([]string{"k", "KEY", "a b", " k", "k\n", "\tKEY ", "k=", "k.wwrsess", "\u00a0k", "<script>&\"'\\", "ключ", "../x",
					"K\u0301", "\ufeffk", strings.Repeat("k", 64)}),
				rapid.StringMatching(`[A-Za-z0-9_=-]{1,64}`)).Draw(t, "key")
			if genRarely(t, "isLong") {
				c.Key = strings.Repeat("long", 2000)[:rapid.SampledFrom([]int{127, 128, 129, 180, 255, 256, 257, 300, 1000, 5000}).Draw(t, "keyLen")]
			}
			c.Creation = genInstant(t, "creation")
			c.LastLookup = genInstant(t, "lastLookup")
			c.NoInfo = rapid.IntRange(0, 4).Draw(t, "noInfo") == 0
			if !c.NoInfo {
				kinds := jsonKinds
				if rapid.IntRange(0, 2).Draw(t, "goKinds") == 0 {
					// A manager isn't limited to what JSON documents consist of
					kinds = goKinds
				}
				c.Info = genFields(t, 3, kinds, 4)
			}
			c.Buf = rapid.SampledFrom([]uint32{0, 0, 200, 512, 1000, 65536}).Draw(t, "buf")
			switch rapid.IntRange(0, 5).Draw(t, "special") {
			case 0:
				c.Big = rapid.IntRange(1, 9000).Draw(t, "big")
				if rapid.IntRange(0, 5).Draw(t, "isHuge") == 3 {
					c.Big = rapid.SampledFrom([]int{32000, 40000, 65000, 65400, 65536, 66000, 130000, 131072}).Draw(t, "huge")
					c.Buf = rapid.SampledFrom([]uint32{0, 32000, 65536, 70000, 140000}).Draw(t, "largeBuf")
				}
			case 1:
				c.Bad = rapid.SampledFrom([]string{"chan", "nan", "func", "year"}).Draw(t, "bad")
			}
			if c.Buf > 0 && int(c.Buf) < len(c.Key)+9 {
				c.Buf = 0 // restorations must fit in
			}
			c.Custom = rapid.Bool().Draw(t, "custom")
			c.Had = rapid.Bool().Draw(t, "had")
			c.Conns = rapid.IntRange(1, 3).Draw(t, "conns")
			c.Sessions = rapid.IntRange(0, 3).Draw(t, "sessions")
			if rapid.IntRange(0, 3).Draw(t, "again") == 2 {
				c.Again = rapid.IntRange(1, 2).Draw(t, "times")
			}
			return
		}, runC19)
}

type customInfo struct {
	mapInfo
	n int
}

func (i *customInfo) Copy() wwr.SessionInfo {
	return &customInfo{i.mapInfo.Copy().(mapInfo), i.n}
}

func runC19(c *Ctx, k c19) {
	var mu sync.Mutex
	var parsed []map[string]interface{}
	o := worldOpts{Sessions: wwr.Enabled, BufSize: k.Buf}
	if k.Custom {
		o.Parser = func(m map[string]interface{}) wwr.SessionInfo {
			mu.Lock()
			defer mu.Unlock()
			cp := mapInfo{}
			for f, v := range m {
				cp[f] = v
			}
			parsed = append(parsed, cp)
			return &customInfo{cp, len(parsed)}
		}
	}
	w := newWorld(c, o)
	// The number of times the session was changed, the size of the session remains the same
	version := 0
	build := func() map[string]interface{} {
		if k.NoInfo {
			return nil
		}
		m := buildMap(k.Info)
		if k.Again > 0 {
			m["version"] = float64(version)
		}
		if k.Big > 0 {
			m["big"] = strings.Repeat("x", k.Big)
		}
		switch k.Bad {
		case "chan":
			m["bad"] = make(chan int)
		case "nan":
			m["bad"] = []interface{}{math.NaN()}
		case "func":
			m["bad"] = map[string]interface{}{"f": func() {}}
		}
		return m
	}
	creation, lookup := k.Creation.time(), k.LastLookup.time()
	undeliverable := k.Bad != "" && (k.Bad == "year" || !k.NoInfo)
	if k.Bad == "year" {
		lookup = time.Date(10001, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	for _, tm := range []time.Time{creation, lookup} {
		if y := tm.Year(); y < 0 || y > 9999 {
			undeliverable = true
		}
	}
	w.sm.put(k.Key, stored{creation, lookup, build()})
	now := time.Now()
	for i := 0; i < k.Sessions; i++ {
		w.sm.put(fmt.Sprintf("other%d", i), stored{now, now, map[string]interface{}{"other": float64(i)}})
	}
	w.sm.put("previous", stored{now, now, nil})
	similar := []string{k.Key + " ", " " + k.Key, strings.ToUpper(k.Key) + "x", strings.TrimSpace(k.Key) + "\n"}
	for _, n := range []int{1, 127, 255, 256} {
		if n < len(k.Key) && len(k.Key) > 64 {
			similar = append(similar, k.Key[:n], k.Key[:len(k.Key)-n])
		}
	}
	for i := 0; i < len(similar); i++ {
		if 9+len(similar[i]) > int(k.Buf) && k.Buf > 0 || len(similar[i]) < 1 {
			similar = append(similar[:i], similar[i+1:]...)
			i--
		}
	}
	bufSize := int(k.Buf)
	if bufSize == 0 {
		bufSize = 8192
	}
	tooLarge := 0 // 1: definitely, -1: definitely not
	if !undeliverable {
		ref, err := json.Marshal(struct {
			K string                 `json:"k"`
			C time.Time              `json:"c"`
			L time.Time              `json:"l"`
			I map[string]interface{} `json:"i,omitempty"`
		}{k.Key, creation, lookup, build()})
		if err != nil {
			panic(err)
		}
		// The encoding of the JSON document isn't specified in every detail
		if n := 9 + len(ref); n > bufSize+16 {
			tooLarge = 1
		} else if n <= bufSize-16 {
			tooLarge = -1
		}
	}
	var req uint64
	restore := func(p *peer, key string) frame {
		req++
		p.send(frame{Type: tRestore, ID: idOf(req), Payload: []byte(key)}.encode())
		c.Settle()
		w.checkPanics()
		l := p.replies(idOf(req))
		if len(l) != 1 {
			c.Failf("restoring session %q was replied to %d times", key, len(l))
		}
		return l[0]
	}
	// The number of connections that have the session
	held := 0
	for i := 0; i < k.Conns; i++ {
		p := w.connect(0)
		had := ""
		if k.Had {
			if r := restore(p, "previous"); !isReply(r.Type) {
				// The buffer is too small even for this one
				continue
			}
			had = "previous"
		}
		for _, key := range similar {
			if key == k.Key || key == "previous" {
				continue
			}
			if r := restore(p, key); r.Type != tReplyNotFound || p.conn.SessionKey() != had {
				c.Failf("%q was restored although only %q is stored: %+v", key, k.Key, r)
			}
		}
		for again := 0; again <= k.Again; again++ {
			if again > 0 {
				version = (version + 1) % 10
				if y := lookup.Year(); y > 0 && y < 9999 {
					lookup = lookup.Add(time.Hour)
				}
				w.sm.put(k.Key, stored{creation, lookup, build()})
			}
			before := w.errs.String()
			nParsed := len(parsed)
			r := restore(p, k.Key)
			ok := isReply(r.Type)
			if !ok {
				if tooLarge == -1 {
					c.Failf("an existing session couldn't be restored: %+v", r)
				}
				if r.Type != tReplyInternal {
					c.Failf("expected an internal error, got %+v", r)
				}
				if p.conn.SessionKey() != had {
					c.Failf("restoring the session failed but the connection has session %q, it had %q before", p.conn.SessionKey(), had)
				}
				if w.errs.String() == before {
					c.Failf("the session couldn't be restored but nothing was logged")
				}
				if n := w.srv.SessionConnectionsNum(k.Key); n != -1 && held == 0 || n != held && held > 0 {
					c.Failf("restoring the session failed but it's registered with %d connections, %d had it before", n, held)
				}
				continue
			}
			if undeliverable || tooLarge == 1 {
				c.Failf("the session was restored though it can't be delivered: %+v", r)
			}
			if r.Type != tReply+1 {
				c.Failf("the reply's encoding isn't UTF8: %d", r.Type)
			}
			if n := 9 + len(r.Payload); n > bufSize {
				c.Failf("the reply is %d bytes long, the message buffer %d", n, bufSize)
			}
			var enc map[string]interface{}
			if err := json.Unmarshal(r.Payload, &enc); err != nil {
				c.Failf("invalid reply payload %q: %s", r.Payload, err)
			}
			told := map[string]time.Time{}
			for _, f := range []string{"c", "l"} {
				s, _ := enc[f].(string)
				tm, err := time.Parse(time.RFC3339Nano, s)
				if err != nil {
					c.Failf("invalid time in %q: %s", r.Payload, err)
				}
				told[f] = tm
			}
			if enc["k"] != k.Key || !told["c"].Equal(creation) || !told["l"].Equal(lookup) {
				c.Failf("the client was told %s, stored are key %q, creation %s and last lookup %s", r.Payload, k.Key, creation,
					lookup)
			}
			info, _ := enc["i"].(map[string]interface{})
			want := normalise(build())
			if !bytes.Equal(normalise(info), renormalise(want)) {
				c.Failf("the client was given the info %s, stored is %s", normalise(info), want)
			}
			if had != k.Key {
				held++
			}
			had = k.Key
			if n := w.srv.SessionConnectionsNum(k.Key); n != held {
				c.Failf("%d connections have the session, it's registered with %d", held, n)
			}
			s := p.conn.Session()
			if s == nil || s.Key != k.Key || !s.Creation.Equal(creation) || !s.LastLookup.Equal(lookup) ||
				p.conn.SessionKey() != k.Key || !p.conn.SessionCreation().Equal(creation) {
				c.Failf("the connection has session %+v, stored are key %q, creation %s and last lookup %s", s, k.Key,
					creation, lookup)
			}
			if k.NoInfo {
				if s.Info != nil || len(parsed) != nParsed || p.conn.SessionInfo("a") != nil {
					c.Failf("there's no session info stored, but the connection has %+v", s.Info)
				}
				continue
			}
			if got := normalise(wwr.SessionInfoToVarMap(s.Info)); !bytes.Equal(got, want) {
				c.Failf("the connection has the session info %s, stored is %s", got, want)
			}
			for f, v := range build() {
				if got := p.conn.SessionInfo(f); !reflect.DeepEqual(got, v) {
					c.Failf("field %q of the session info is %#v, stored is %#v", f, got, v)
				}
			}
			if p.conn.SessionInfo("nonexistent") != nil {
				c.Failf("a nonexistent field has a value")
			}
			if k.Custom {
				ci, isCustom := s.Info.(*customInfo)
				if !isCustom {
					c.Failf("the session info is a %T rather than the result of the parser", s.Info)
				}
				if len(parsed) != nParsed+1 || ci.n != len(parsed) || !reflect.DeepEqual(parsed[nParsed], build()) {
					c.Failf("the session info parser was called with %v, stored is %v", parsed[nParsed:], build())
				}
			}
		}
	}
	nested := undeliverable || tooLarge == 1
	for _, v := range k.Info {
		nested = nested || v.depth() > 0
	}
	c.Nontrivial(nested)
	c.Class("undeliverable", undeliverable)
	c.Class("too large", tooLarge == 1)
	c.Class("no info", k.NoInfo)
	c.Class("custom parser", k.Custom)
	c.Class("changed and restored again", k.Again > 0)
}

// ---------------------------------------------------------------------------------------------
// C20: failing session hooks are logged and have no effect on anything else

type c20op struct {
	Kind string // create, restore, closesrv, closecli, closekey, echo
	Conn int
	Key  int
	Fail int  `json:",omitempty"` // 1: the hook returns an error, 2: it panics (closure only)
	Lib  int  `json:",omitempty"` // index into hookErrs or hookPanics respectively
	Both bool `json:",omitempty"` // a failing lookup nevertheless returns a session
}

// hookPanics are the ways a hook panics, what it panics with never matters.
// log is what is to be found in the error log
var hookPanics = []struct {
	log   string
	panic func()
}{
	{secret, func() { panic(secret) }},
	{secret, func() { panic(errSecret) }},
	{secret, func() { panic(struct{ S string }{secret}) }},
	{secret, func() { panic(&wwr.ErrRequest{Code: secret, Message: secret}) }},
	{"nil map", func() { var m map[string]int; m[secret] = 1 }},
	{"out of range", func() { var l []int; l[len(secret)]++ }},
	{"nil pointer", func() { var p *c20op; p.Fail++ }},
	{"interface conversion", func() { var i interface{} = secret; _ = i.(error) }},
	{"4711", func() { panic(4711) }},
}

// hookErrs are the errors returned by the hooks, what kind of error it is never matters
var hookErrs = append([]error{errSecret, errSecret, wwr.ErrRequest{Code: "secret-4711", Message: "secret"},
	&wwr.ErrRequest{Code: "secret-4711", Message: "secret"}}, libErrs...)

type c20 struct {
	Conns int
	Ops   []c20op
}

const secret = "secret-4711"

func init() {
	registerNoisy("C20",
		"at least one hook failed",
		6000, 180000,
		func(t *rapid.T) (c c20) {
			c.Conns = rapid.IntRange(1, 3).Draw(t, "conns")
			n := rapid.IntRange(1, 14).Draw(t, "ops")
			for i := 0; i < n; i++ {
				o := c20op{
					Kind: rapid.SampledFrom([]string{"create", "create", "restore", "restore", "closesrv", "closecli",
						"closekey", "echo"}).Draw(t, "kind"),
					Conn: rapid.IntRange(0, c.Conns-1).Draw(t, "conn"),
					Key:  rapid.IntRange(0, 4).Draw(t, "key"),
					Fail: rapid.IntRange(0, 2).Draw(t, "fail"),
				}
				if o.Fail == 2 && !strings.HasPrefix(o.Kind, "close") {
					o.Fail = 1
				}
				if o.Fail == 1 {
					o.Lib = rapid.IntRange(0, len(hookErrs)-1).Draw(t, "lib")
					o.Both = o.Kind == "restore" && rapid.Bool().Draw(t, "both")
				} else if o.Fail == 2 {
					o.Lib = rapid.IntRange(0, len(hookPanics)-1).Draw(t, "panic")
				}
				c.Ops = append(c.Ops, o)
			}
			return
		}, runC20)
}

func runC20(c *Ctx, k c20) {
	w := newWorld(c, worldOpts{Sessions: wwr.Enabled})
	w.impl.onRequest = func(_ int, _ wwr.Connection, m wwr.Message) (wwr.Payload, error) {
		return wwr.Payload{Encoding: m.PayloadEncoding(), Data: append([]byte{}, m.Payload()...)}, nil
	}
	var peers []*peer
	sess := make([]string, k.Conns)
	stored := map[string]bool{}
	var keys []string
	for i := 0; i < k.Conns; i++ {
		peers = append(peers, w.connect(i))
	}
	var req uint64
	request := func(i int, f frame) frame {
		req++
		f.ID = idOf(req)
		peers[i].send(f.encode())
		c.Settle()
		w.checkPanics()
		l := peers[i].replies(f.ID)
		if len(l) != 1 {
			c.Failf("a request of type %d on connection %d was replied to %d times", f.Type, i, len(l))
		}
		return l[0]
	}
	echo := func(i int) {
		r := request(i, frame{Type: tRequest, Payload: []byte("ping")})
		if !isReply(r.Type) || string(r.Payload) != "ping" {
			c.Failf("connection %d isn't served properly any more: %+v", i, r)
		}
	}
	call := func(step string, f func() error) error {
		t := goTask(f)
		c.Settle()
		w.checkPanics()
		if !t.isDone() {
			c.Failf("%s doesn't return", step)
		}
		if t.pan != nil {
			c.Failf("%s panicked: %v", step, t.pan)
		}
		return t.err
	}
	users := func(key string) (n int) {
		for _, s := range sess {
			if s == key && key != "" {
				n++
			}
		}
		return
	}
	failures := 0
	for n, o := range k.Ops {
		i := o.Conn
		p := peers[i]
		key := "unknown"
		if o.Key < len(keys) {
			key = keys[o.Key]
		}
		if o.Kind == "closesrv" || o.Kind == "closecli" {
			key = sess[i]
		}
		if o.Kind == "create" {
			key = fmt.Sprintf("key%d", len(keys))
		}
		step := fmt.Sprintf("op %d (%s conn %d key %q fail %d)", n, o.Kind, i, key, o.Fail)
		set := func(on bool) {
			w.sm.mu.Lock()
			defer w.sm.mu.Unlock()
			for _, m := range []map[string]error{w.sm.createErr, w.sm.lookupErr, w.sm.closeErr} {
				delete(m, key)
			}
			delete(w.sm.closePan, key)
			if !on {
				return
			}
			switch {
			case o.Kind == "create":
				w.sm.createErr[key] = hookErrs[o.Lib]
			case o.Kind == "restore":
				w.sm.lookupErr[key] = hookErrs[o.Lib]
				w.sm.lookupBoth = o.Both
			case o.Fail == 2:
				w.sm.closePan[key] = hookPanics[o.Lib].panic
			default:
				w.sm.closeErr[key] = hookErrs[o.Lib]
			}
		}
		closedBefore := w.sm.numClosed(key)
		errsBefore := len(w.errs.String())
		set(o.Fail > 0)
		invoked := false
		switch o.Kind {
		case "create":
			err := call(step, func() error { return p.conn.CreateSession(mapInfo{"n": "v"}) })
			if sess[i] != "" {
				if err == nil {
					c.Failf("%s: created a second session", step)
				}
				break
			}
			if err != nil {
				c.Failf("%s: CreateSession failed: %s", step, err)
			}
			invoked = true
			sess[i] = key
			keys = append(keys, key)
			stored[key] = o.Fail == 0
		case "restore":
			r := request(i, frame{Type: tRestore, Payload: []byte(key)})
			switch {
			case o.Fail > 0:
				invoked = true
				if r.Type != tReplyInternal {
					c.Failf("%s: expected an internal error, got %+v", step, r)
				}
			case !stored[key]:
				if r.Type != tReplyNotFound {
					c.Failf("%s: expected the session not to be found, got %+v", step, r)
				}
			default:
				if !isReply(r.Type) {
					c.Failf("%s: restoring failed: %+v", step, r)
				}
				sess[i] = key
			}
		case "closesrv":
			if err := call(step, p.conn.CloseSession); err != nil {
				c.Failf("%s: CloseSession failed: %s", step, err)
			}
			sess[i] = ""
		case "closecli":
			if r := request(i, frame{Type: tCloseSession}); r.Type != tReply {
				c.Failf("%s: unexpected reply %+v", step, r)
			}
			sess[i] = ""
		case "closekey":
			if err := call(step, func() error { _, _, err := w.srv.CloseSession(key); return err }); err != nil {
				c.Failf("%s: CloseSession failed: %s", step, err)
			}
			for j := range sess {
				if sess[j] == key {
					sess[j] = ""
				}
			}
		case "echo":
			echo(i)
		}
		set(false)
		if d := w.sm.numClosed(key) - closedBefore; d > 0 {
			invoked = true
			if d != 1 || users(key) > 0 {
				c.Failf("%s: the session was destroyed %d times, %d connections still use it", step, d, users(key))
			}
			if o.Fail == 0 {
				stored[key] = false
			}
		}
		if o.Fail > 0 && invoked {
			failures++
			text := secret
			if o.Fail == 1 {
				text = hookErrs[o.Lib].Error()
			} else {
				text = hookPanics[o.Lib].log
			}
			if !strings.Contains(w.errs.String()[errsBefore:], text) {
				c.Failf("%s: the failure of the hook wasn't logged: %q", step, w.errs.String()[errsBefore:])
			}
		}
		active := map[string]bool{}
		for j, s := range sess {
			if got := peers[j].conn.SessionKey(); got != s {
				c.Failf("%s: connection %d has session %q, expected %q", step, j, got, s)
			}
			if s != "" {
				active[s] = true
			}
		}
		if n := w.srv.ActiveSessionsNum(); n != len(active) {
			c.Failf("%s: %d sessions are registered, expected %d", step, n, len(active))
		}
		for _, s := range keys {
			want := users(s)
			if want == 0 {
				want = -1
			}
			if got := w.srv.SessionConnectionsNum(s); got != want {
				c.Failf("%s: session %s has %d connections, expected %d", step, s, got, want)
			}
		}
	}
	for i := range peers {
		echo(i)
		for _, f := range peers[i].received() {
			if bytes.Contains(f.data, []byte("secret")) {
				c.Failf("the error of a hook was disclosed to the client: %q", f.data)
			}
		}
	}
	w.checkWriters()
	c.Nontrivial(failures > 0)
	c.Class("hooks failed", failures > 0)
}

// ---------------------------------------------------------------------------------------------
// C24: session objects handed out are exact, independent copies

type c24 struct {
	Fields map[string]val
	NilMap bool   `json:",omitempty"`
	Via    string // parser, create, restore
	Ops    []int
	// Facts of the session unless it's created
	Key                  string
	Creation, LastLookup instant
}

func init() {
	register("C24",
		"the session info contains nested containers and at least one copy was modified",
		12000, 360000,
		func(t *rapid.T) (c c24) {
			c.Via = rapid.SampledFrom([]string{"parser", "parser", "create", "restore"}).Draw(t, "via")
			kinds := goKinds
			if c.Via == "parser" {
				kinds = parserKinds
			}
			c.Fields = genFields(t, 4, kinds, 4)
			c.NilMap = rapid.IntRange(0, 20).Draw(t, "nilMap") == 0
			c.Ops = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "ops")
			c.Key = rapid.OneOf(rapid.StringN(1, 20, -1), rapid.Just("s")).Draw(t, "key")
			c.Creation, c.LastLookup = genInstant(t, "creation"), genInstant(t, "lastLookup")
			for _, i := range []*instant{&c.Creation, &c.LastLookup} {
				if i.time().Year() > 9999 {
					i.Zone = 0 // impossible to encode otherwise
				}
			}
			return
		}, runC24)
}

func runC24(c *Ctx, k c24) {
	ref := buildMap(k.Fields)
	src := buildMap(k.Fields)
	if k.NilMap && k.Via == "parser" {
		ref, src = map[string]interface{}{}, nil
	}
	var info wwr.SessionInfo
	var conn wwr.Connection
	switch k.Via {
	case "parser":
		info = wwr.GenericSessionInfoParser(src)
	case "create":
		w := newWorld(c, worldOpts{Sessions: wwr.Enabled})
		p := w.connect(0)
		t := goTask(func() error { return p.conn.CreateSession(wwr.GenericSessionInfoParser(src)) })
		c.Settle()
		if !t.isDone() || t.err != nil || t.pan != nil {
			c.Failf("CreateSession failed: %v %v", t.err, t.pan)
		}
		conn = p.conn
	case "restore":
		w := newWorld(c, worldOpts{Sessions: wwr.Enabled})
		w.sm.put(k.Key, stored{k.Creation.time(), k.LastLookup.time(), src})
		p := w.connect(0)
		p.send(frame{Type: tRestore, Payload: []byte(k.Key)}.encode())
		c.Settle()
		if p.conn.SessionKey() != k.Key {
			c.Failf("restoring the session failed")
		}
		conn = p.conn
	}
	orig := &wwr.Session{Key: k.Key, Info: info, Creation: k.Creation.time(), LastLookup: k.LastLookup.time()}
	session := func() *wwr.Session {
		if conn != nil {
			return conn.Session()
		}
		return orig.Clone()
	}
	value := func(f string) interface{} {
		if conn != nil {
			return conn.SessionInfo(f)
		}
		return info.Value(f)
	}
	compare := func(what string, i wwr.SessionInfo) {
		if i == nil {
			c.Failf("%s is nil", what)
		}
		var want []string
		for f := range ref {
			want = append(want, f)
		}
		got := append([]string{}, i.Fields()...)
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Failf("%s has the fields %q, expected %q", what, got, want)
		}
		for f, v := range ref {
			if got := i.Value(f); !reflect.DeepEqual(got, v) {
				c.Failf("%s: field %q is %#v, expected %#v", what, f, got, v)
			}
		}
		if m := wwr.SessionInfoToVarMap(i); !reflect.DeepEqual(m, ref) {
			c.Failf("%s: converted to a map it's %#v, expected %#v", what, m, ref)
		}
	}
	var kept []wwr.SessionInfo
	exact := *session()
	if k.Via != "create" {
		exact.Key, exact.Creation, exact.LastLookup = k.Key, k.Creation.time(), k.LastLookup.time()
	}
	for n, op := range k.Ops {
		what := fmt.Sprintf("after operation %d (kind %d) the original", n, op)
		switch op {
		case 0:
			s := session()
			compare("the info of a copy of the session", s.Info)
			kept = append(kept, s.Info)
			s.Key, s.Creation, s.LastLookup, s.Info = "junk", time.Time{}, time.Time{}, nil
		case 1:
			s := session()
			m := wwr.SessionInfoToVarMap(s.Info)
			wreck(m)
			compare("a copy of the session whose fields were modified", s.Info)
		case 2:
			for f := range ref {
				wreck(value(f))
			}
		case 3:
			cp := session().Info.Copy()
			for _, f := range cp.Fields() {
				wreck(cp.Value(f))
			}
			compare("a copy of the session info", cp)
		case 4:
			// Modify everything a copy was made from
			s := session().Info
			cp := s.Copy()
			if conn == nil && info != nil {
				mine := wwr.GenericSessionInfoParser(buildMap(k.Fields))
				src2 := buildMap(k.Fields)
				own := wwr.GenericSessionInfoParser(src2).Copy()
				wreck(src2)
				if !k.NilMap {
					compare("a copy of the session info whose origin was modified", own)
					compare("session info", mine)
				}
			}
			compare("a copy", cp)
		case 5:
			cl := session()
			cl2 := cl.Clone()
			if cl2 == cl || cl2.Key != exact.Key || !cl2.Creation.Equal(exact.Creation) || !cl2.LastLookup.Equal(exact.LastLookup) {
				c.Failf("%+v was cloned as %+v", cl, cl2)
			}
			compare("a clone", cl2.Info)
		}
		s := session()
		if s.Key != exact.Key || !s.Creation.Equal(exact.Creation) || !s.LastLookup.Equal(exact.LastLookup) {
			c.Failf("%s was changed to %+v, expected %+v", what, s, exact)
		}
		compare(what, s.Info)
		for f, v := range ref {
			if got := value(f); !reflect.DeepEqual(got, v) {
				c.Failf("%s: field %q is %#v, expected %#v", what, f, got, v)
			}
		}
	}
	for _, i := range kept {
		compare("a copy made before", i)
	}
	if conn == nil {
		// Copies don't depend on the original either
		s := session()
		wreck(src)
		compare("a copy whose original was modified", s.Info)
	}
	d := 0
	for _, v := range k.Fields {
		if x := v.depth(); x > d {
			d = x
		}
	}
	c.Nontrivial(d > 1)
	c.Class("nested containers", d > 1)
}

// ---------------------------------------------------------------------------------------------
// C25: generated session keys are unique, unpredictable and safe to use in URLs

type c25 struct {
	Mode string // direct, server, processes, empty
	N    int
	Par  int
}

var seenKeys = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

func init() {
	registerNoisy("C25",
		"at least 64 keys were generated by the case, or in several processes, or a generator failed",
		300, 9000,
		func(t *rapid.T) (c c25) {
			c.Mode = rapid.SampledFrom([]string{"direct", "direct", "direct", "server", "server", "empty"}).Draw(t, "mode")
			if rapid.IntRange(0, 29).Draw(t, "proc") == 0 {
				c.Mode = "processes"
			}
			c.N = rapid.IntRange(1, 400).Draw(t, "n")
			c.Par = rapid.IntRange(1, 8).Draw(t, "par")
			return
		}, runC25)
}

// emptyGen fails to generate keys at first
type emptyGen struct {
	mu    sync.Mutex
	fails int
}

func (g *emptyGen) Generate() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.fails > 0 {
		g.fails--
		return ""
	}
	return "usable"
}

func runC25(c *Ctx, k c25) {
	var keys []string
	switch k.Mode {
	case "direct":
		gen := wwr.NewDefaultSessionKeyGenerator()
		l := make([][]string, k.Par)
		var wg sync.WaitGroup
		for g := range l {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < k.N; i++ {
					l[g] = append(l[g], gen.Generate())
				}
			}()
		}
		wg.Wait()
		for _, x := range l {
			keys = append(keys, x...)
		}
	case "server":
		w := newWorld(c, worldOpts{Sessions: wwr.Enabled, DefaultGen: true})
		for i := 0; i < k.Par; i++ {
			p := w.connect(0)
			for j := 0; j < 1+k.N%4; j++ {
				t := goTask(func() error { return p.conn.CreateSession(nil) })
				c.Settle()
				if !t.isDone() || t.err != nil || t.pan != nil {
					c.Failf("CreateSession failed: %v %v", t.err, t.pan)
				}
				keys = append(keys, p.conn.SessionKey())
				t = goTask(p.conn.CloseSession)
				c.Settle()
			}
		}
	case "processes":
		for i := 0; i < 2; i++ {
			out, err := exec.Command(os.Args[0], "-ww.child=keygen").Output()
			if err != nil {
				panic(harnessError("child: " + err.Error()))
			}
			keys = append(keys, strings.Fields(string(out))...)
		}
	case "empty":
		gen := &emptyGen{fails: 1 + k.N%3}
		w := newWorld(c, worldOpts{Sessions: wwr.Enabled, KeyGen: gen})
		p := w.connect(0)
		for i := 0; i < 1+k.N%3; i++ {
			// Either an error is returned or the hook's failure is passed on as a panic
			t := goTask(func() error { return p.conn.CreateSession(mapInfo{"a": "b"}) })
			c.Settle()
			if !t.isDone() {
				c.Failf("CreateSession is stuck")
			}
			if t.pan == nil && t.err == nil {
				c.Failf("a session without a key was created")
			}
			t = goTask(func() error {
				if p.conn.HasSession() || p.conn.Session() != nil || w.srv.ActiveSessionsNum() != 0 ||
					w.srv.SessionConnectionsNum("") != -1 {
					return errors.New("there's a session without a key")
				}
				return nil
			})
			c.Settle()
			if !t.isDone() {
				c.Failf("the connection is locked after the key generator failed")
			}
			if t.err != nil {
				c.Failf("%s", t.err)
			}
			if len(p.decoded()) > 0 || len(w.sm.created) > 0 {
				c.Failf("the client or session manager was told about a session without a key")
			}
		}
		t := goTask(func() error { return p.conn.CreateSession(nil) })
		c.Settle()
		if !t.isDone() || t.err != nil || t.pan != nil || p.conn.SessionKey() != "usable" {
			c.Failf("creating a session failed after the key generator recovered: %v %v", t.err, t.pan)
		}
		c.Nontrivial(true)
		c.Class("failing generator", true)
		return
	}
	checkKeys(c, keys)
	c.Nontrivial(len(keys) >= 64 || k.Mode == "processes")
	c.Class("mode "+k.Mode, true)
}

// checkKeys verifies properties that independent uniformly distributed keys violate with a negligible
// probability only
func checkKeys(c *Ctx, keys []string) {
	var prev []byte
	var ones []int
	var raws [][]byte
	var values [256]int
	for _, key := range keys {
		seenKeys.Lock()
		dup := seenKeys.m[key]
		seenKeys.m[key] = true
		seenKeys.Unlock()
		if dup {
			c.Failf("key %q was generated twice", key)
		}
		for _, r := range key {
			if !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=", r) {
				c.Failf("key %q isn't URL-safe", key)
			}
		}
		raw, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(key, "="))
		if err != nil || len(raw) != 48 {
			c.Failf("key %q doesn't encode 48 bytes: %v", key, err)
		}
		if ones == nil {
			ones = make([]int, 8*len(raw))
		}
		for i := range ones {
			ones[i] += int(raw[i/8]>>(i%8)) & 1
		}
		if prev != nil {
			// 384 bits are expected to differ in 192 +- 10
			d := 0
			for i := range raw {
				d += bits.OnesCount8(raw[i] ^ prev[i])
			}
			if d < 80 || d > 304 {
				c.Failf("successive keys %q differ in %d of 384 bits", key, d)
			}
		}
		prev = raw
		raws = append(raws, raw)
		for _, b := range raw {
			values[b]++
		}
	}
	n := float64(len(keys))
	if n < 128 {
		return
	}
	for i, o := range ones {
		if math.Abs(float64(o)-n/2) > 10*math.Sqrt(n)/2 {
			c.Failf("bit %d is set in %d of %d keys", i, o, len(keys))
		}
	}
	for v, got := range values {
		if want := 48 * n / 256; want >= 80 && math.Abs(float64(got)-want) > 10*math.Sqrt(want) {
			c.Failf("byte %d occurs %d times in %d keys", v, got, len(keys))
		}
	}
	// No bit is determined by the others, nor by those of the previous key
	if len(raws) >= 450 {
		if r := rank(raws[:450]); r < 385 {
			c.Failf("450 keys span %d dimensions only, expected 385", r)
		}
	}
	if len(raws) >= 840 {
		var pairs [][]byte
		for i := range raws[1:840] {
			pairs = append(pairs, append(append([]byte{}, raws[i]...), raws[i+1]...))
		}
		if r := rank(pairs); r < 769 {
			c.Failf("839 pairs of successive keys span %d dimensions only, expected 769", r)
		}
	}
}

// rank returns the number of dimensions spanned by the rows of bits, each of them extended by a constant
func rank(rows [][]byte) (r int) {
	var m [][]uint64
	for _, row := range rows {
		v := make([]uint64, len(row)/8+1)
		for i, b := range row {
			v[i/8] |= uint64(b) << (8 * (i % 8))
		}
		v[len(row)/8] |= 1 << 63
		m = append(m, v)
	}
	for bit := 0; bit < 64*len(m[0]) && r < len(m); bit++ {
		w, mask := bit/64, uint64(1)<<(bit%64)
		p := r
		for p < len(m) && m[p][w]&mask == 0 {
			p++
		}
		if p == len(m) {
			continue
		}
		m[r], m[p] = m[p], m[r]
		for i := r + 1; i < len(m); i++ {
			if m[i][w]&mask != 0 {
				for j := w; j < len(m[i]); j++ {
					m[i][j] ^= m[r][j]
				}
			}
		}
		r++
	}
	return
}
