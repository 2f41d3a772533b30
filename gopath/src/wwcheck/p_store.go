package wwcheck

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"pgregory.net/rapid"
)

// connStub is the connection passed to session managers
type connStub struct {
	wwr.Connection
	sess *wwr.Session
}

func (s connStub) Session() *wwr.Session { return s.sess.Clone() }
func (s connStub) HasSession() bool      { return s.sess != nil }
func (s connStub) IsActive() bool        { return true }
func (s connStub) RemoteAddr() net.Addr  { return fakeAddr(0) }
func (s connStub) SessionKey() string {
	if s.sess == nil {
		return ""
	}
	return s.sess.Key
}
func (s connStub) SessionCreation() time.Time {
	if s.sess == nil {
		return time.Time{}
	}
	return s.sess.Creation
}
func (s connStub) SessionInfo(f string) interface{} {
	if s.sess == nil || s.sess.Info == nil {
		return nil
	}
	return s.sess.Info.Value(f)
}

// newDSM creates a default session manager
func newDSM(c *Ctx, dir string) *wwr.DefaultSessionManager {
	var m *wwr.DefaultSessionManager
	t := goTask(func() error { m = wwr.NewDefaultSessionManager(dir); return nil })
	c.Settle()
	if t.pan != nil || m == nil {
		c.Failf("NewDefaultSessionManager failed: %v", t.pan)
	}
	return m
}

// snapshot returns a description of everything below the directory except for what's below skip
func snapshot(dir, skip string) string {
	var b strings.Builder
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)
			return nil
		}
		if p == skip {
			return filepath.SkipDir
		}
		info, err := d.Info()
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)
			return nil
		}
		fmt.Fprintf(&b, "%s %s", p, info.Mode())
		if info.Mode().IsRegular() {
			content, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %d %q", info.ModTime().UnixNano(), content)
		}
		b.WriteByte('\n')
		return nil
	})
	return b.String()
}

// ---------------------------------------------------------------------------------------------
// C21: the default session manager stores sessions faithfully and permanently

var storeKeys = []string{"a", "b", "A", "a.wwrsess", "a b", "a-_=", "ключ", "a.", "wwrsess", "tmp", "a.tmp", ".a",
	strings.Repeat("k", 64), strings.Repeat("k", 63) + "j", strings.Repeat("L", 247), "a\nb", "*", "a?", "'\"", "%2e",
	strings.Repeat("L", 248), strings.Repeat("L", 400), "a\x00b", "", "x/y", "CON", "a\\b", "\xff\xfe",
	strings.Repeat("ю", 123), strings.Repeat("ю", 124), strings.Repeat("€", 200), "x/../a", "./a", "../sessions/a"}

type c21op struct {
	Kind string // create, lookup, close, reopen, damage
	Key  int
	Cut  int            `json:",omitempty"` // what's left of damaged files in percent, above 100: they're replaced
	At   instant        `json:",omitempty"`
	Info map[string]val `json:",omitempty"`
	Nil  bool           `json:",omitempty"`
	Bad  bool           `json:",omitempty"`
}

type c21 struct {
	Server  bool
	Default bool `json:",omitempty"` // the options of the server are the default ones
	Keys    [][]byte
	Ops     []c21op
}

// genStoreKey draws a session key that's similar to one of the others in many cases
func genStoreKey(t *rapid.T, others [][]byte) []byte {
	if len(others) < 1 || rapid.IntRange(0, 2).Draw(t, "keyForm") == 0 {
		if rapid.IntRange(0, 3).Draw(t, "random") == 0 {
			return rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "key")
		}
		return []byte(rapid.SampledFrom(storeKeys).Draw(t, "key"))
	}
	o := append([]byte{}, rapid.SampledFrom(others).Draw(t, "other")...)
	at := 0
	if len(o) > 0 {
		at = rapid.IntRange(0, len(o)-1).Draw(t, "at")
	}
	extra := rapid.SampledFrom([]string{" ", ".", "\t", "\n", "\r", "\xff", "\xfe", "\u00e9", "e\u0301", "\ufeff", "\u200b",
		"\ufffd", "a", "A", "_", "-", "=", "+", "%20", "~", "1", ".wwrsess"}).Draw(t, "extra")
	switch rapid.IntRange(0, 7).Draw(t, "variation") {
	case 7:
		return append([]byte(rapid.SampledFrom([]string{"./", "x/../", "../sessions/", "//"}).Draw(t, "path")), o...)
	case 0:
		return append(o, extra...)
	case 1:
		return append([]byte(extra), o...)
	case 2:
		return append(append(append([]byte{}, o[:at]...), extra...), o[at:]...)
	case 3:
		if len(o) > 1 {
			return append(o[:at], o[at+1:]...)
		}
	case 4:
		return bytes.ToUpper(o)
	case 5:
		return bytes.ToLower(o)
	case 6:
		if len(o) > 0 {
			o[at] ^= byte(1) << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		}
	}
	return o
}

func init() {
	register("C21",
		"a session was looked up after the session manager was constructed anew, or after it was stored again, looked up before, or closed",
		2100, 63000,
		func(t *rapid.T) (c c21) {
			c.Server = rapid.IntRange(0, 3).Draw(t, "server") == 0
			c.Default = c.Server && rapid.Bool().Draw(t, "default")
			n := rapid.IntRange(1, 4).Draw(t, "keys")
			for i := 0; i < n; i++ {
				c.Keys = append(c.Keys, genStoreKey(t, c.Keys))
			}
			m := rapid.IntRange(2, 16).Draw(t, "ops")
			for i := 0; i < m; i++ {
				o := c21op{
					Kind: rapid.SampledFrom([]string{"create", "create", "lookup", "lookup", "lookup", "close",
						"create", "lookup", "lookup", "close", "reopen", "reopen", "damage"}).Draw(t, "kind"),
					Key: rapid.IntRange(0, n-1).Draw(t, "k"),
				}
				if o.Kind == "create" {
					o.At = genInstant(t, "at")
					o.Nil = rapid.IntRange(0, 4).Draw(t, "nil") == 0
					if !o.Nil {
						o.Info = genFields(t, 2, jsonKinds, 3)
						o.Bad = rapid.IntRange(0, 11).Draw(t, "bad") == 0
					}
				} else if o.Kind == "damage" {
					o.Cut = rapid.IntRange(0, 130).Draw(t, "cut")
				}
				c.Ops = append(c.Ops, o)
			}
			return
		},
		func(c *Ctx, k c21) {
			if k.Server {
				runC21server(c, k)
				return
			}
			runC21(c, k)
		})
}

type storeEntry struct {
	creation  time.Time
	min, max  time.Time // of the last lookup
	info      []byte
	lookedUp  bool
	overwrite bool
	damaged   bool
}

// damageFiles damages all files in the directory
func damageFiles(dir string, percent int) {
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, f := range files {
		content, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if percent > 100 {
			// None of these becomes a valid object when it's cut afterwards
			content = []byte([]string{"", "[]", "{]}", "\x00\x00\x00\x00", "7", "\"k\""}[percent%6])
		} else if content = bytes.TrimSpace(content); len(content) > 0 {
			content = content[:len(content)*percent/101]
		}
		os.WriteFile(f, content, 0644)
	}
}

func runC21(c *Ctx, k c21) {
	dir := filepath.Join(c.TempDir(), "sub", "sessions")
	m := newDSM(c, dir)
	model := map[string]*storeEntry{}
	interesting, damaged := false, false
	reopened := false
	closed := map[string]bool{}
	call := func(step string, f func() error) error {
		t := goTask(f)
		c.Settle()
		if !t.isDone() {
			c.Failf("%s doesn't return", step)
		}
		if t.pan != nil {
			c.Failf("%s panicked: %v", step, t.pan)
		}
		return t.err
	}
	lookup := func(step, key string) {
		var res wwr.SessionLookupResult
		before := time.Now()
		err := call(step, func() (e error) { res, e = m.OnSessionLookup(key); return })
		after := time.Now()
		e := model[key]
		if e == nil {
			if !isNilResult(res) {
				c.Failf("%s: found a session that doesn't exist: %+v", step, res)
			}
			if err != nil {
				c.Failf("%s: looking up a nonexistent session failed: %s", step, err)
			}
			interesting = interesting || closed[key]
			return
		}
		if e.damaged {
			if err == nil {
				c.Failf("%s: the session can't be read, but no error was returned: %+v", step, res)
			}
			damaged = true
			return
		}
		if err != nil || isNilResult(res) {
			c.Failf("%s: the session wasn't found: %v", step, err)
		}
		if !res.Creation().Equal(e.creation) || !bytes.Equal(exactly(res.Info()), e.info) {
			c.Failf("%s: found a session created at %s with the info %s, stored was %s, %s", step, res.Creation(),
				exactly(res.Info()), e.creation, e.info)
		}
		if l := res.LastLookup(); l.Before(e.min) || l.After(e.max) {
			c.Failf("%s: the last lookup was at %s, expected %s to %s", step, l, e.min, e.max)
		}
		// The clock may be adjusted slightly meanwhile
		e.min, e.max = before.Add(-50*time.Millisecond), after.Add(50*time.Millisecond)
		interesting = interesting || e.lookedUp || reopened || e.overwrite
		e.lookedUp = true
	}
	for n, o := range k.Ops {
		key := string(k.Keys[o.Key%len(k.Keys)])
		step := fmt.Sprintf("op %d (%s %q)", n, o.Kind, key)
		switch o.Kind {
		case "create":
			at := o.At.time()
			s := &wwr.Session{Key: key, Creation: at, LastLookup: at.Add(time.Hour)}
			var info map[string]interface{}
			if !o.Nil {
				info = buildMap(o.Info)
				want := normalise(info)
				if o.Bad {
					info["bad"] = make(chan int)
				}
				s.Info = wwr.GenericSessionInfoParser(info)
				info = nil
				info = map[string]interface{}{}
				json.Unmarshal(want, &info)
			}
			err := call(step, func() error { return m.OnSessionCreated(connStub{sess: s}) })
			mustFail := o.Bad || at.Year() > 9999 || at.Add(time.Hour).Year() > 9999 || at.Year() < 0
			mayFail := mustFail || len(key) < 1 || len(key) > 247 || strings.ContainsAny(key, "/\\\x00")
			if mustFail && err == nil {
				c.Failf("%s: storing a session that can't be encoded succeeded", step)
			}
			if !mayFail && err != nil {
				c.Failf("%s: the session couldn't be stored: %s", step, err)
			}
			if err == nil {
				_, exists := model[key]
				model[key] = &storeEntry{creation: at, min: at.Add(time.Hour), max: at.Add(time.Hour), info: exactly(info),
					overwrite: exists}
			}
		case "lookup":
			lookup(step, key)
		case "close":
			err := call(step, func() error { return m.OnSessionClosed(key) })
			if model[key] != nil {
				if err != nil {
					c.Failf("%s: the session couldn't be closed: %s", step, err)
				}
				delete(model, key)
				closed[key] = true
			}
		case "reopen":
			m = newDSM(c, dir)
			reopened = true
		case "damage":
			damageFiles(dir, o.Cut)
			for _, e := range model {
				e.damaged = true
			}
		}
	}
	// Neither does anything disappear nor is anything left behind
	var keys []string
	for key := range model {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		lookup(fmt.Sprintf("finally looking up %q", key), key)
		if err := call("close", func() error { return m.OnSessionClosed(key) }); err != nil {
			c.Failf("session %q couldn't be closed: %s", key, err)
		}
		delete(model, key)
		lookup(fmt.Sprintf("looking up the closed session %q", key), key)
	}
	entries, err := os.ReadDir(dir)
	if err != nil {
		c.Failf("the session directory disappeared: %s", err)
	}
	for _, e := range entries {
		content, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		if len(content) > 0 {
			c.Failf("all sessions are closed but %s remained: %q", e.Name(), content)
		}
	}
	c.Nontrivial(interesting)
	c.Class("reopened", reopened)
	c.Class("looked up a damaged file", damaged)
	c.Class("closed", len(closed) > 0)
}

// exactly describes the info including the types of all values
func exactly(m map[string]interface{}) []byte {
	if m == nil {
		return []byte("none")
	}
	return []byte(typed(m))
}

func typed(v interface{}) string {
	switch v := v.(type) {
	case map[string]interface{}:
		var l []string
		for k, e := range v {
			l = append(l, fmt.Sprintf("%q:%s", k, typed(e)))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	case []interface{}:
		var l []string
		for _, e := range v {
			l = append(l, typed(e))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

func isNilResult(r wwr.SessionLookupResult) bool { return r == nil }

// runC21server stores sessions by means of a server and restores them on another one
func runC21server(c *Ctx, k c21) {
	dir := filepath.Join(c.TempDir(), "sessions")
	type live struct {
		sess *wwr.Session
		info []byte
	}
	var sessions []live
	closed := map[string]bool{}
	var w *world
	var peers []*peer
	if k.Default {
		// The sessions are stored next to the program
		defer func(old string) { os.Args[0] = old }(os.Args[0])
		os.Args[0] = filepath.Join(c.TempDir(), "program")
	}
	start := func() {
		if k.Default {
			// Sessions are enabled and stored by default
			t := goTask(func() error {
				o := worldOpts{Sessions: wwr.OptionUnset, DefaultGen: true, DefaultSM: true}
				if len(k.Ops)%2 == 0 {
					o.Sessions = wwr.Enabled
				}
				w = newWorldSM(c, o, nil)
				return nil
			})
			c.Settle()
			if !t.isDone() || t.pan != nil || w == nil {
				c.Failf("creating a server with default options failed: %v", t.pan)
			}
		} else {
			w = newWorldSM(c, worldOpts{Sessions: wwr.Enabled, DefaultGen: true}, newDSM(c, dir))
		}
		peers = nil
		for i := 0; i < 2; i++ {
			peers = append(peers, w.connect(0))
		}
	}
	start()
	var req uint64
	request := func(i int, f frame) frame {
		req++
		f.ID = idOf(req)
		peers[i].send(f.encode())
		c.Settle()
		w.checkPanics()
		l := peers[i].replies(f.ID)
		if len(l) != 1 {
			c.Failf("a request of type %d was replied to %d times", f.Type, len(l))
		}
		return l[0]
	}
	restored := 0
	reopened := false
	check := func(step string, i int, l live) {
		r := request(i, frame{Type: tRestore, Payload: []byte(l.sess.Key)})
		if closed[l.sess.Key] {
			if r.Type != tReplyNotFound {
				c.Failf("%s: restoring a closed session: %+v", step, r)
			}
			return
		}
		var enc struct {
			K string
			C time.Time
			I map[string]interface{}
		}
		if !isReply(r.Type) || json.Unmarshal(r.Payload, &enc) != nil {
			c.Failf("%s: the session couldn't be restored: %+v", step, r)
		}
		s := peers[i].conn.Session()
		if s == nil || enc.K != l.sess.Key || s.Key != l.sess.Key || !enc.C.Equal(l.sess.Creation) ||
			!s.Creation.Equal(l.sess.Creation) || !bytes.Equal(normalise(enc.I), l.info) ||
			!bytes.Equal(normalise(wwr.SessionInfoToVarMap(s.Info)), l.info) {
			c.Failf("%s: restored %+v, the client was told %s, created was %+v with the info %s", step, s, r.Payload,
				l.sess, l.info)
		}
		restored++
	}
	for n, o := range k.Ops {
		i := o.Key % 2
		step := fmt.Sprintf("op %d (%s)", n, o.Kind)
		switch o.Kind {
		case "create":
			if peers[i].conn.HasSession() {
				continue
			}
			var info wwr.SessionInfo
			if !o.Nil {
				info = wwr.GenericSessionInfoParser(buildMap(o.Info))
			}
			t := goTask(func() error { return peers[i].conn.CreateSession(info) })
			c.Settle()
			if !t.isDone() || t.pan != nil || t.err != nil {
				c.Failf("%s: %v %v", step, t.pan, t.err)
			}
			sessions = append(sessions, live{peers[i].conn.Session(), normalise(buildMap(o.Info))})
		case "lookup":
			if len(sessions) > 0 {
				check(step, i, sessions[o.Key%len(sessions)])
			}
		case "close":
			key := peers[i].conn.SessionKey()
			if key == "" {
				continue
			}
			last := w.srv.SessionConnectionsNum(key) == 1
			if r := request(i, frame{Type: tCloseSession}); !isReply(r.Type) {
				c.Failf("%s: unexpected reply %+v", step, r)
			}
			if last {
				closed[key] = true
			}
		case "reopen":
			for _, p := range peers {
				p.drop(errAbnormal)
			}
			c.Settle()
			start()
			reopened = true
		}
	}
	for _, l := range sessions {
		check("finally", 0, l)
	}
	c.Nontrivial(restored > 0)
	c.Class("server", true)
	c.Class("server restarted", reopened)
	c.Class("default options", k.Default)
}

// ---------------------------------------------------------------------------------------------
// C22: the default session manager touches nothing outside of its directory

type c22op struct {
	Kind string // create, lookup, close, restore, or a fault: damage, blockfile, rmdir, mkdir
	Key  string // $ROOT is replaced by the path of the scratch directory
}

type c22 struct {
	Ops []c22op
}

// The session directory is 6 levels deep in the scratch directory, keys ascend by at most 4 levels
const c22dir = "d1/d2/d3/d4/d5/sess"

var c22parts = []string{"..", "..", ".", "canary", "canary.wwrsess", "d5", "sess", "inner", "x", "$ROOT", "other",
	"sess2", "", "d4", "etc", "..\x00", "%2e%2e", "..;", "．．", " ..", ".. ", "inner", "inner.wwrsess", "~", "$HOME", "tmp",
	strings.Repeat("l", 120)}

func init() {
	register("C22",
		"a key that addresses something outside of the session directory was used",
		1500, 45000,
		func(t *rapid.T) (c c22) {
			n := rapid.IntRange(1, 6).Draw(t, "ops")
			for i := 0; i < n; i++ {
				var key string
				if rapid.IntRange(0, 2).Draw(t, "form") == 0 {
					up := rapid.IntRange(1, 4).Draw(t, "up")
					key = strings.Repeat("../", up) + rapid.SampledFrom([]string{"canary", "x", "sess/in", "canary.wwrsess",
						"d5/canary", "sess2/canary", "d4/d5/canary"}).Draw(t, "target")
					key = rapid.SampledFrom([]string{"", "", "./", "/", "inner/../", "\x00/"}).Draw(t, "prefix") + key
					switch rapid.IntRange(0, 11).Draw(t, "disguise") {
					case 0:
						key = strings.NewReplacer("..", "%2e%2e", "/", "%2f").Replace(key)
					case 1:
						key = strings.ReplaceAll(key, "/", "%2F")
					case 2:
						key = strings.ReplaceAll(key, "../", "..././")
					case 3:
						key = strings.ReplaceAll(key, "/", "\u2215")
					case 4:
						key = " " + key + " \n"
					case 5:
						key = strings.Repeat("l", rapid.SampledFrom([]int{100, 240, 246, 300}).Draw(t, "long")) + "/../" + key
					}
				} else {
					parts := rapid.SliceOfN(rapid.SampledFrom(c22parts), 1, 6).Draw(t, "parts")
					sep := rapid.SampledFrom([]string{"/", "/", "/", "\\", "//", ":", "%2f", "", "\u2215"}).Draw(t, "sep")
					key = strings.Join(parts, sep)
				}
				// Never ascend far enough to leave the scratch directory
				for strings.Count(key, "..") > 4 {
					key = strings.Replace(key, "..", ".", 1)
				}
				if len(c.Ops) > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
					key = rapid.SampledFrom(c.Ops).Draw(t, "same").Key
				}
				kinds := []string{"create", "lookup", "close", "restore"}
				if rapid.IntRange(0, 4).Draw(t, "fault") == 0 {
					kinds = []string{"damage", "blockfile", "rmdir", "mkdir"}
				}
				c.Ops = append(c.Ops, c22op{
					Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
					Key:  key,
				})
			}
			return
		}, runC22)
}

func runC22(c *Ctx, k c22) {
	root := c.TempDir()
	dir := filepath.Join(root, c22dir)
	os.MkdirAll(dir, 0755)
	canary := []byte(`{"c":"2020-01-01T00:00:00Z","l":"2020-01-01T00:00:00Z","i":{"secret":"canary"}}`)
	d := root
	for _, p := range append([]string{"."}, strings.Split(c22dir, "/")[:5]...) {
		d = filepath.Join(d, p)
		os.WriteFile(filepath.Join(d, "canary.wwrsess"), canary, 0644)
		os.WriteFile(filepath.Join(d, "canary"), canary, 0644)
		os.Mkdir(filepath.Join(d, "sess2"), 0755)
		os.WriteFile(filepath.Join(d, "sess2", "canary.wwrsess"), canary, 0644)
	}
	// The working directory, the home directory and the one for temporary files are observed as well
	for _, d := range []string{"cwd", "home", "tmp"} {
		os.Mkdir(filepath.Join(root, d), 0755)
		os.WriteFile(filepath.Join(root, d, "canary.wwrsess"), canary, 0644)
	}
	for env, d := range map[string]string{"HOME": "home", "TMPDIR": "tmp"} {
		old := os.Getenv(env)
		os.Setenv(env, filepath.Join(root, d))
		defer os.Setenv(env, old)
	}
	if old, err := os.Getwd(); err == nil {
		os.Chdir(filepath.Join(root, "cwd"))
		defer os.Chdir(old)
	}
	m := newDSM(c, dir)
	before := snapshot(root, dir)
	w := newWorldSM(c, worldOpts{Sessions: wwr.Enabled}, m)
	p := w.connect(0)
	outside, faults := false, false
	for n, o := range k.Ops {
		key := strings.ReplaceAll(o.Key, "$ROOT", root)
		switch o.Kind {
		case "damage":
			// Damage everything that's stored
			l, _ := filepath.Glob(filepath.Join(dir, "*"))
			for _, f := range append(l, filepath.Join(dir, "inner.wwrsess")) {
				os.WriteFile(f, []byte("{damaged"), 0644)
			}
			faults = true
			continue
		case "blockfile":
			// Session files that can neither be read, replaced nor removed
			for _, f := range []string{"inner", "x", "canary"} {
				os.Remove(filepath.Join(dir, f+".wwrsess"))
				os.MkdirAll(filepath.Join(dir, f+".wwrsess", "d"), 0755)
			}
			faults = true
			continue
		case "rmdir":
			os.RemoveAll(dir)
			faults = true
			continue
		case "mkdir":
			os.Mkdir(dir, 0755)
			continue
		}
		if strings.Count(filepath.Clean(key), "..") > 4 {
			continue
		}
		step := fmt.Sprintf("op %d (%s %q)", n, o.Kind, key)
		target := filepath.Join(dir, key)
		if !strings.HasPrefix(target, dir+"/") || strings.HasPrefix(key, "/") {
			outside = true
		}
		var t *task
		switch o.Kind {
		case "create":
			s := &wwr.Session{Key: key, Creation: time.Unix(1, 0).UTC(), LastLookup: time.Unix(1, 0).UTC()}
			t = goTask(func() error { return m.OnSessionCreated(connStub{sess: s}) })
		case "close":
			t = goTask(func() error { return m.OnSessionClosed(key) })
		case "lookup":
			t = goTask(func() error {
				res, err := m.OnSessionLookup(key)
				if err == nil && res != nil && len(res.Info()) > 0 {
					panic("disclosed " + string(normalise(res.Info())))
				}
				return nil
			})
		case "restore":
			if len(key) < 1 {
				continue
			}
			id := idOf(uint64(n))
			p.send(frame{Type: tRestore, ID: id, Payload: []byte(key)}.encode())
			c.Settle()
			w.checkPanics()
			l := p.replies(id)
			if len(l) != 1 {
				c.Failf("%s: replied to %d times", step, len(l))
			}
			if bytes.Contains(l[0].Payload, []byte("canary\"")) && isReply(l[0].Type) && bytes.Contains(l[0].Payload,
				[]byte("secret")) {
				c.Failf("%s: disclosed a file outside of the session directory: %s", step, l[0].Payload)
			}
		}
		if t != nil {
			c.Settle()
			if !t.isDone() {
				c.Failf("%s doesn't return", step)
			}
			if t.pan != nil {
				c.Failf("%s: %v", step, t.pan)
			}
		}
		if after := snapshot(root, dir); after != before {
			c.Failf("%s: something outside of the session directory was changed: %s", step, diffLines(before, after))
		}
	}
	c.Nontrivial(outside)
	c.Class("outside", outside)
	c.Class("storage failing", faults)
}

func diffLines(a, b string) string {
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	var out []string
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			out = append(out, "+"+l)
		}
		delete(in, l)
	}
	for l := range in {
		out = append(out, "-"+l)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------------------------------------
// C23: neither concurrent use nor crashes lose, damage or resurrect stored sessions

type c23 struct {
	Mode string // race, limit, kill

	// Concurrent use
	Keys    int
	Tasks   []c23task
	Procs   int
	Reopen  bool
	Info    map[string]val `json:",omitempty"`
	Create  bool           // the interrupted operation stores the session
	Exists  bool           // there's a session stored before
	Limit   int            // maximum file size
	Ignore  bool           // exceeding it is reported as an error rather than a signal
	KillDly int            // microseconds
	Big     int
}

type c23task struct {
	Kind string // lookup, close, create
	Key  int
	N    int
}

func init() {
	registerNoisy("C23",
		"at least two operations on the same session were in progress concurrently, or an operation was interrupted",
		360, 10800,
		func(t *rapid.T) (c c23) {
			c.Mode = rapid.SampledFrom([]string{"race", "race", "race", "race", "race", "limit", "limit", "kill"}).Draw(t, "mode")
			c.Keys = rapid.IntRange(1, 2).Draw(t, "keys")
			c.Info = genFields(t, 2, jsonKinds, 3)
			if c.Mode == "race" {
				n := rapid.IntRange(2, 8).Draw(t, "tasks")
				for i := 0; i < n; i++ {
					c.Tasks = append(c.Tasks, c23task{
						Kind: rapid.SampledFrom([]string{"lookup", "lookup", "lookup", "close", "create"}).Draw(t, "kind"),
						Key:  rapid.IntRange(0, c.Keys-1).Draw(t, "key"),
						N:    rapid.IntRange(1, 20).Draw(t, "n"),
					})
				}
				c.Big = rapid.SampledFrom([]int{0, 0, 100, 20000}).Draw(t, "big")
				return
			}
			c.Exists = rapid.IntRange(0, 3).Draw(t, "exists") > 0
			c.Create = !c.Exists || rapid.Bool().Draw(t, "create")
			c.Limit = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 400)).Draw(t, "limit")
			c.Ignore = rapid.Bool().Draw(t, "ignore")
			c.KillDly = rapid.IntRange(0, 3000).Draw(t, "kill")
			c.Big = rapid.SampledFrom([]int{0, 100, 100000}).Draw(t, "big")
			return
		}, runC23)
}

func runC23(c *Ctx, k c23) {
	if k.Mode == "race" {
		runC23race(c, k)
		return
	}
	dir := c.TempDir()
	info := buildMap(k.Info)
	if k.Big > 0 {
		info["big"] = strings.Repeat("x", k.Big)
	}
	old := wwr.Session{Key: "s", Creation: time.Unix(1000, 0).UTC(), LastLookup: time.Unix(1000, 5).UTC(),
		Info: wwr.GenericSessionInfoParser(info)}
	m := newDSM(c, dir)
	if k.Exists {
		if err := m.OnSessionCreated(connStub{sess: &old}); err != nil {
			c.Failf("the session couldn't be stored: %s", err)
		}
	}
	js, _ := json.Marshal(k)
	cmd := exec.Command(os.Args[0], "-ww.child=store;"+dir+";"+string(js))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	pipe, err := cmd.StdinPipe()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(harnessError(err.Error()))
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		panic(harnessError(err.Error()))
	}
	pw.Close()
	b := make([]byte, 1)
	if n, _ := pr.Read(b); n != 1 {
		cmd.Wait()
		panic(harnessError("the child isn't ready: " + out.String()))
	}
	if k.Mode == "kill" {
		time.Sleep(time.Duration(k.KillDly) * time.Microsecond)
		cmd.Process.Kill()
	}
	pipe.Close()
	cmd.Wait()
	pr.Close()
	succeeded := strings.Contains(out.String(), "operation succeeded")
	if strings.Contains(out.String(), "operation panicked") {
		c.Failf("the operation panicked: %s", out.String())
	}

	// Whatever happened, the session is complete and recent or it's the previous one
	m = newDSM(c, dir)
	var res wwr.SessionLookupResult
	t := goTask(func() (e error) { res, e = m.OnSessionLookup("s"); return })
	c.Settle()
	if !t.isDone() || t.pan != nil || t.err != nil {
		c.Failf("after the interruption the session can't be looked up: %v %v", t.pan, t.err)
	}
	if isNilResult(res) {
		if k.Exists || succeeded {
			c.Failf("the session was lost (stored before: %t, operation succeeded: %t)", k.Exists, succeeded)
		}
	} else {
		isOld := res.Creation().Equal(old.Creation) && bytes.Equal(normalise(res.Info()), normalise(info)) && k.Exists
		info["new"] = "yes"
		isNew := res.Creation().Equal(time.Unix(2000, 0)) && bytes.Equal(normalise(res.Info()), normalise(info)) && k.Create
		if !isOld && !isNew {
			c.Failf("the stored session is damaged: created %s, info %.300s", res.Creation(), normalise(res.Info()))
		}
		if succeeded && k.Create && !isNew {
			c.Failf("the session was stored successfully but its previous state was found")
		}
		if isOld && !k.Create && succeeded && res.LastLookup().Equal(old.LastLookup) {
			c.Failf("the session was looked up successfully but its last lookup wasn't updated")
		}
		if isOld && (k.Create || !succeeded) && k.Mode == "limit" && res.LastLookup().Before(old.LastLookup) {
			c.Failf("the last lookup of the session is %s, it was %s before", res.LastLookup(), old.LastLookup)
		}
		if err := m.OnSessionClosed("s"); err != nil {
			c.Failf("the session couldn't be closed: %s", err)
		}
		if res, err := m.OnSessionLookup("s"); err != nil || !isNilResult(res) {
			c.Failf("the closed session was found: %v %v", res, err)
		}
	}
	// Whatever remained of the interrupted operation isn't a session
	files, _ := os.ReadDir(dir)
	for _, f := range files {
		key, isSession := strings.CutSuffix(f.Name(), ".wwrsess")
		if !isSession || key == "s" {
			continue
		}
		if res, err := m.OnSessionLookup(key); err != nil || !isNilResult(res) {
			c.Failf("after the interruption looking up %q, which was never created, returns %v, %v", key, res, err)
		}
	}
	// Neither does it affect later ones
	for i, key := range []string{"t", "s", "t"} {
		info := map[string]interface{}{"n": strings.Repeat("y", 3*i)}
		created := time.Unix(int64(3000+i), 0).UTC()
		if err := m.OnSessionCreated(connStub{sess: &wwr.Session{Key: key, Creation: created, LastLookup: created,
			Info: wwr.GenericSessionInfoParser(info)}}); err != nil {
			c.Failf("after the interruption a session couldn't be stored: %s", err)
		}
		for j := 0; j < 2; j++ {
			res, err := m.OnSessionLookup(key)
			if err != nil || isNilResult(res) || !res.Creation().Equal(created) || !bytes.Equal(normalise(res.Info()), normalise(info)) {
				c.Failf("after the interruption a session stored is damaged: %v %+v", err, res)
			}
		}
	}
	c.Nontrivial(!succeeded)
	c.Class("interrupted ("+k.Mode+")", !succeeded)
	c.Class("completed", succeeded)
}

func runC23race(c *Ctx, k c23) {
	m := newDSM(c, c.TempDir())
	type version struct{ info []byte }
	fields := func(task, n int) map[string]interface{} {
		info := buildMap(k.Info)
		info["v"] = fmt.Sprintf("%d/%d", task, n)
		if k.Big > 0 && (task+n)%2 == 0 {
			info["big"] = strings.Repeat("x", k.Big)
		}
		return info
	}
	valid := map[string]version{}
	create := func(key string, task, n int) error {
		return m.OnSessionCreated(connStub{sess: &wwr.Session{Key: key, Creation: time.Unix(int64(1000*task+n+5000), 0).UTC(),
			LastLookup: time.Unix(9, 0).UTC(), Info: wwr.GenericSessionInfoParser(fields(task, n))}})
	}
	creators, closers := map[string]int{}, map[string]int{}
	perKey := map[string]int{}
	for i := 0; i < k.Keys; i++ {
		key := fmt.Sprint("s", i)
		if err := create(key, -1, i); err != nil {
			c.Failf("the session couldn't be stored: %s", err)
		}
		valid[fmt.Sprintf("%d/%d", -1, i)] = version{normalise(fields(-1, i))}
	}
	for i, t := range k.Tasks {
		key := fmt.Sprint("s", t.Key)
		perKey[key]++
		switch t.Kind {
		case "create":
			creators[key]++
			for n := 0; n < t.N; n++ {
				valid[fmt.Sprintf("%d/%d", i, n)] = version{normalise(fields(i, n))}
			}
		case "close":
			closers[key]++
		}
	}
	var mu sync.Mutex
	closed := map[string]int{}
	check := func(res wwr.SessionLookupResult) error {
		v, _ := res.Info()["v"].(string)
		if ref, ok := valid[v]; !ok || !bytes.Equal(ref.info, normalise(res.Info())) {
			return fmt.Errorf("looked up a damaged session: %.300s", normalise(res.Info()))
		}
		return nil
	}
	start := make(chan struct{})
	var tasks []*task
	for i, t := range k.Tasks {
		tasks = append(tasks, goTask(func() error {
			<-start
			key := fmt.Sprint("s", t.Key)
			for n := 0; n < t.N; n++ {
				switch t.Kind {
				case "lookup":
					mu.Lock()
					gone := closed[key] > 0 && creators[key] == 0
					mu.Unlock()
					res, err := m.OnSessionLookup(key)
					if err != nil {
						return fmt.Errorf("lookup failed: %s", err)
					}
					if isNilResult(res) {
						if closers[key] == 0 {
							return errors.New("a session that wasn't closed wasn't found")
						}
						continue
					}
					if gone {
						return errors.New("a session was found after it was closed")
					}
					if err := check(res); err != nil {
						return err
					}
				case "create":
					if err := create(key, i, n); err != nil {
						return fmt.Errorf("storing failed: %s", err)
					}
				case "close":
					if err := m.OnSessionClosed(key); err == nil {
						mu.Lock()
						closed[key]++
						mu.Unlock()
					}
					return nil
				}
			}
			return nil
		}))
	}
	close(start)
	c.Settle()
	for i, t := range tasks {
		if !t.isDone() || t.pan != nil || t.err != nil {
			c.Failf("task %d (%s): %v %v", i, k.Tasks[i].Kind, t.err, t.pan)
		}
	}
	for i := 0; i < k.Keys; i++ {
		key := fmt.Sprint("s", i)
		res, err := m.OnSessionLookup(key)
		if err != nil {
			c.Failf("finally looking up session %s failed: %s", key, err)
		}
		if isNilResult(res) && closers[key] == 0 {
			c.Failf("session %s was lost", key)
		}
		if !isNilResult(res) {
			if creators[key] == 0 && closed[key] > 0 {
				c.Failf("the closed session %s was resurrected", key)
			}
			if err := check(res); err != nil {
				c.Failf("%s", err)
			}
		}
		if creators[key] == 0 && closers[key] > 0 && closed[key] != 1 {
			c.Failf("session %s was closed successfully %d times", key, closed[key])
		}
	}
	race := false
	for _, n := range perKey {
		race = race || n > 1
	}
	c.Nontrivial(race)
	c.Class("concurrent use", race)
}
