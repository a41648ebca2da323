// Package hx is the common driver of all checks: it draws a scenario with
// rapid, executes it, counts, and records the smallest failing scenario as a
// replay file. A scenario is plain JSON, so that a replay bypasses rapid.
package hx

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/pojol/braid/lib/log"
	"go.uber.org/zap"
	"pgregory.net/rapid"
)

// Out is the outcome of one executed scenario.
type Out struct {
	Err        error    // the property was violated
	Infra      error    // the case could not be judged (environment)
	NonTrivial bool     // by the check's rule
	Labels     []string // classification, counted into the evidence
}

func Fail(f string, a ...any) Out { return Out{Err: fmt.Errorf(f, a...), NonTrivial: true} }

// Finding is a deterministic demonstration of a recorded defect.
type Finding struct {
	Key string
	Run func(t *testing.T) (bool, string) // reproduced, what was seen
}

type failure struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Scenario json.RawMessage `json:"scenario"`
}

type result struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Failure     *failure          `json:"failure"`
	Infra       string            `json:"infra"`
	Findings    []findingRes      `json:"findings"`
	Done        bool              `json:"done"`
}
type findingRes struct {
	Key        string `json:"key"`
	Reproduced bool   `json:"reproduced"`
	What       string `json:"what"`
}

var (
	caseStart atomic.Int64 // unix nano of the running case, 0 if none
	// CaseLimit is how long one case may take in real time before the
	// watchdog gives up on it.
	CaseLimit = 60 * time.Second
)

func dir() string {
	d := os.Getenv("VH_DIR")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// watchdog ends the process when a case takes too long: with 78 if nothing has
// been going on for a while although this goroutine got its turns, so that
// waiting longer is no use, with 77 otherwise.
func watchdog() {
	type tick struct {
		at  time.Time
		cpu time.Duration
	}
	var last []tick
	for {
		time.Sleep(time.Second)
		last = append(last, tick{time.Now(), cpu()})
		if len(last) > 20 {
			last = last[1:]
		}
		s := caseStart.Load()
		if s == 0 || time.Since(time.Unix(0, s)) < CaseLimit {
			continue
		}
		code := 77
		if d := last[len(last)-1].at.Sub(last[0].at); len(last) == 20 && d < 25*time.Second && last[len(last)-1].cpu-last[0].cpu < d/50 {
			code = 78
		}
		buf := make([]byte, 4<<20)
		n := runtime.Stack(buf, true)
		os.WriteFile(filepath.Join(dir(), "hang.txt"), buf[:n], 0o644)
		os.Exit(code)
	}
}

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Check is the body of every check.
func Check[S any](t *testing.T, id, rule string, gen func(*rapid.T) S, run func(*testing.T, S) Out, finds ...Finding) {
	go watchdog()
	res := &result{Labels: map[string]int{}, Rule: rule}
	hashes := map[uint64]bool{}
	var tooMany bool
	defer func() {
		b, _ := json.Marshal(res)
		hb := make([]byte, 0, 8*len(hashes))
		for h := range hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(filepath.Join(dir(), "hashes.bin"), hb, 0o644)
		os.WriteFile(filepath.Join(dir(), "result.json"), b, 0o644)
	}()
	exec := func(sc S) Out {
		raw, err := json.Marshal(sc)
		if err != nil {
			panic(err)
		}
		cur, _ := json.Marshal(failure{Property: id, Test: t.Name(), Error: "process ended during this case", Scenario: raw})
		os.WriteFile(filepath.Join(dir(), "current.json"), cur, 0o644)
		caseStart.Store(time.Now().UnixNano())
		o := guard(func() Out { return run(t, sc) })
		caseStart.Store(0)
		res.Evaluations++
		for _, l := range o.Labels {
			res.Labels[l]++
		}
		if o.Infra != nil && res.Infra == "" {
			res.Infra = o.Infra.Error()
		}
		if o.NonTrivial {
			res.NonTrivial++
			h := sha256.Sum256(raw)
			hashes[binary.LittleEndian.Uint64(h[:8])] = true
			if len(res.Samples) < 3 && res.NonTrivial%17 == 1 && len(raw) < 6000 {
				res.Samples = append(res.Samples, raw)
			}
		}
		if o.Err != nil {
			// the last failure seen while shrinking is the smallest one
			if res.Failure == nil || len(raw) <= len(res.Failure.Scenario) {
				res.Failure = &failure{Property: id, Test: t.Name(), Error: o.Err.Error(), Scenario: raw}
			}
		}
		return o
	}

	if f := os.Getenv("VH_REPLAY"); f != "" {
		var fl failure
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(b, &fl); err != nil {
			t.Fatal(err)
		}
		var sc S
		if err := json.Unmarshal(fl.Scenario, &sc); err != nil {
			t.Fatal(err)
		}
		n := 1
		fmt.Sscanf(os.Getenv("VH_REPEAT"), "%d", &n)
		for i := 0; i < n; i++ {
			if o := exec(sc); o.Err != nil {
				t.Error(o.Err)
				break
			}
		}
		res.Done = true
		return
	}

	if c := os.Getenv("VH_CORPUS"); c != "" {
		files, _ := filepath.Glob(filepath.Join(c, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			var fl failure
			var sc S
			b, err := os.ReadFile(f)
			if err == nil {
				err = json.Unmarshal(b, &fl)
			}
			if err == nil {
				err = json.Unmarshal(fl.Scenario, &sc)
			}
			if err != nil {
				res.Infra = "corpus " + f + ": " + err.Error()
				return
			}
			if o := exec(sc); o.Err != nil {
				res.Done = true
				t.Error("corpus", f, o.Err)
				return
			}
		}
		for _, f := range finds {
			ok, what := f.Run(t)
			res.Findings = append(res.Findings, findingRes{f.Key, ok, what})
		}
	}

	start := time.Now()
	limit := 1000 * time.Hour
	if s := os.Getenv("VH_TIME"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	failedAt := time.Time{}
	infra := 0
	defer func() { res.Done = true }()
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(start) > limit && res.Failure == nil {
			tooMany = true
			return // budget used up: the remaining cases are not evaluated and not counted
		}
		if infra > 20 {
			return
		}
		sc := gen(rt)
		o := exec(sc)
		if o.Infra != nil {
			infra++
		}
		if o.Err != nil {
			if failedAt.IsZero() {
				failedAt = time.Now()
			}
			rt.Fatalf("%v", o.Err)
		}
	})
	_ = tooMany
}

func guard(f func() Out) (o Out) {
	defer func() {
		if r := recover(); r != nil {
			o = Out{Err: fmt.Errorf("panic: %v\n%s", r, debug.Stack()), NonTrivial: true}
		}
	}()
	return f()
}

// ErrDeadlock is returned by Bubble when everything in it is blocked for ever.
var ErrDeadlock = errors.New("deadlock: every goroutine is blocked for ever")

// Bubble runs f in virtual time. Goroutines that f leaves blocked are ignored,
// a bubble in which f itself can never finish is an error.
func Bubble(t *testing.T, f func() Out) (o Out) {
	finished := false
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") {
				if finished {
					return
				}
				o = Out{Err: ErrDeadlock, NonTrivial: true}
				return
			}
			o = Out{Err: fmt.Errorf("panic out of bubble: %v\n%s", r, debug.Stack()), NonTrivial: true}
		}
	}()
	synctest.Test(t, func(*testing.T) {
		o = guard(f)
		finished = true
	})
	return o
}

// Labels collects label names conveniently.
type Labels map[string]bool

func (l Labels) Add(cond bool, name string) {
	if cond {
		l[name] = true
	}
}
func (l Labels) List() []string {
	var r []string
	for k := range l {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	// braid logs every call and prints stacks on warnings
	log.ExportSLog(zap.NewNop(), "")
}
