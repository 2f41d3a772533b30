package wwcheck

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	fProp    = flag.String("ww.prop", "", "property id")
	fTier    = flag.String("ww.tier", "quick", "quick or thorough")
	fOut     = flag.String("ww.out", "", "result file of this shard")
	fReplay  = flag.String("ww.replay", "", "case file to be replayed")
	fRepeat  = flag.Int("ww.repeat", 1, "number of repetitions of the replay")
	fBudget  = flag.Duration("ww.budget", 5*time.Minute, "soft time budget of this shard")
	fScale   = flag.Float64("ww.scale", 1, "scales the number of cases")
	fIsolate = flag.Int("ww.isolate", -1, "run cases from this index on in a subprocess (used to minimise crashes)")
	fChild   = flag.String("ww.child", "", "internal: run a child helper")
)

// TestMain dispatches child helpers
func TestMain(m *testing.M) {
	flag.Parse()
	if *fChild != "" {
		childMain(*fChild)
		return
	}
	os.Exit(m.Run())
}

// recorder stands between rapid and testing.T: a violation is reported in the result file
type recorder struct{ *testing.T }

func (r recorder) Fatalf(format string, a ...any) { panic(stopCheck{}) }
func (r recorder) Errorf(format string, a ...any) {}
func (r recorder) Logf(format string, a ...any)   {}
func (r recorder) Fail()                          {}
func (r recorder) FailNow()                       { panic(stopCheck{}) }
func (r recorder) Failed() bool                   { return false }

type stopCheck struct{}

func TestProperty(t *testing.T) {
	p := props[*fProp]
	if p == nil {
		t.Fatalf("unknown property %q", *fProp)
	}
	col := &collector{
		st:     Stats{Property: p.ID, Rule: p.Rule, Classes: map[string]int{}},
		hashes: map[uint64]struct{}{},
		start:  time.Now(),
	}
	if *fReplay != "" {
		replay(t, p, col)
		return
	}
	checks := int(float64(p.Checks[*fTier]) * *fScale)
	if checks < 1 {
		checks = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")

	journal, err := os.OpenFile(*fOut+".journal", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		t.Fatal(err)
	}
	index := 0
	failed := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCheck); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(recorder{t}, func(rt *rapid.T) {
			if col.st.Harness != "" {
				return
			}
			if !failed && time.Since(col.start) > *fBudget {
				col.st.TimeUp = true
				return
			}
			c := p.gen(rt)
			js, err := json.Marshal(c)
			if err != nil {
				col.st.Harness = err.Error()
				return
			}
			// The case is written down before it's run, it may crash the process
			writeJournal(journal, index, js)
			var v verdict
			if *fIsolate >= 0 && index >= *fIsolate {
				v = runIsolated(p, js)
			} else {
				v = p.runCase(t, c)
			}
			index++
			if v.Harness != "" {
				col.st.Harness = v.Harness + "\ncase: " + string(js)
				return
			}
			if !failed {
				col.add(js, v)
			}
			if v.Fail != "" {
				failed = true
				if col.st.Case == nil || len(js) <= len(col.st.Case) {
					col.st.Failure = v.Fail
					col.st.Case = js
				}
				rt.Fatalf("violation")
			}
		})
	}()
	if err := col.save(*fOut); err != nil {
		t.Fatal(err)
	}
}

func writeJournal(f *os.File, index int, js []byte) {
	buf := make([]byte, 0, len(js)+40)
	buf = fmt.Appendf(buf, "%020d %020d ", index, len(js))
	buf = append(buf, js...)
	f.WriteAt(buf, 0)
}

// runIsolated runs the case in a process of its own
func runIsolated(p *Prop, js []byte) (v verdict) {
	dir, err := os.MkdirTemp("", "wwiso")
	if err != nil {
		return verdict{Harness: err.Error()}
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "case"), filepath.Join(dir, "out")
	os.WriteFile(in, js, 0644)
	cmd := exec.Command(os.Args[0], "-test.run=^TestProperty$", "-ww.prop="+p.ID, "-ww.replay="+in, "-ww.out="+out)
	output, err := cmd.CombinedOutput()
	res, readErr := os.ReadFile(out)
	if readErr != nil {
		if crashed(string(output)) {
			return verdict{Fail: "the process crashed:\n" + crashText(string(output))}
		}
		return verdict{Harness: fmt.Sprintf("isolated case failed: %v: %s", err, output)}
	}
	var st Stats
	if err := json.Unmarshal(res, &st); err != nil {
		return verdict{Harness: err.Error()}
	}
	return verdict{Fail: st.Failure, Harness: st.Harness}
}

// crashed tells whether the output of a process shows a crash caused by webwire-go
func crashed(output string) bool {
	if strings.Contains(output, "WARNING: DATA RACE") {
		return raceBlame(output)
	}
	i := strings.Index(output, "\npanic: ")
	if j := strings.Index(output, "\nfatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 && !strings.HasPrefix(output, "panic: ") && !strings.HasPrefix(output, "fatal error: ") {
		return false
	}
	// The first goroutine listed is the one that crashed
	trace := output[i+1:]
	if k := strings.Index(trace, "[running"); k >= 0 {
		trace = trace[k:]
	}
	if k := strings.Index(trace, "\n\n"); k >= 0 {
		trace = trace[:k]
	}
	return blame(trace)
}

func raceBlame(output string) bool {
	i := strings.Index(output, "WARNING: DATA RACE")
	report := output[i:]
	if k := strings.Index(report, "=================="); k >= 0 {
		report = report[:k]
	}
	// Both accesses must have been made by webwire-go
	sections := strings.Split(report, "\n\n")
	n := 0
	for _, s := range sections {
		head := strings.SplitN(strings.TrimPrefix(s, "WARNING: DATA RACE\n"), "\n", 2)[0]
		if strings.Contains(head, "by goroutine") || strings.Contains(head, "by main goroutine") {
			for _, l := range strings.Split(s, "\n")[1:] {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, repoPkg) {
					n++
					break
				}
				if strings.HasPrefix(l, "wwcheck.") {
					break
				}
			}
		}
	}
	return n >= 1
}

func crashText(output string) string {
	for _, m := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: "} {
		if i := strings.Index(output, m); i >= 0 {
			output = output[i:]
			break
		}
	}
	if len(output) > 4000 {
		output = output[:4000]
	}
	return output
}

func replay(t *testing.T, p *Prop, col *collector) {
	js, err := os.ReadFile(*fReplay)
	if err != nil {
		t.Fatal(err)
	}
	var wrapped struct {
		Case json.RawMessage `json:"case"`
		Prop string          `json:"property"`
	}
	if err := json.Unmarshal(js, &wrapped); err == nil && wrapped.Prop != "" {
		js = wrapped.Case
	}
	c, err := p.decode(js)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < *fRepeat; i++ {
		v := p.runCase(t, c)
		if v.Harness != "" {
			col.st.Harness = v.Harness
			break
		}
		col.add(js, v)
		if v.Fail != "" {
			col.st.Failure, col.st.Case = v.Fail, js
			break
		}
	}
	if err := col.save(*fOut); err != nil {
		t.Fatal(err)
	}
}
