package light

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/lib/timer"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T03

type ttask struct {
	Run    bool     `json:"run"`
	Due    int      `json:"due"`
	Int    int      `json:"int"`
	Dur    int      `json:"dur"`    // the body takes that many ms
	Acts   []string `json:"acts"`   // of the runs in turn: ok, err, panic, end (set by the before hook)
	Direct bool     `json:"direct"` // added without being told its service
}

type top struct {
	At   int    `json:"at"`
	Do   string `json:"do"` // start, stop, stopname, startall, stopall, remove: from the service, add: again
	Task int    `json:"task"`
}

type scnT03 struct {
	Tasks  []ttask `json:"tasks"`
	Ops    []top   `json:"ops"`
	Hooks  string  `json:"hooks"` // b, e, x: before, end, exception
	Until  int     `json:"until"`
	Crowd  int     `json:"crowd"`  // so many goroutines use the service at the same time
	Inside []int   `json:"inside"` // task i stops task Inside[i] in its third run, -1 none
}

func genT03(rt *rapid.T) scnT03 {
	sc := scnT03{Until: rapid.IntRange(20, 300).Draw(rt, "until"), Hooks: rapid.SampledFrom([]string{"", "b", "be", "bex", "x", "ex"}).Draw(rt, "hooks")}
	n := rapid.IntRange(1, 3).Draw(rt, "tasks")
	for i := 0; i < n; i++ {
		t := ttask{Run: rapid.IntRange(0, 6).Draw(rt, "run") > 0, Due: rapid.SampledFrom([]int{-1, 0, 0, 3, 17, 40}).Draw(rt, "due"), Int: rapid.IntRange(2, 40).Draw(rt, "int"),
			Direct: rapid.IntRange(0, 3).Draw(rt, "direct") == 0}
		t.Dur = rapid.IntRange(0, t.Int-1).Draw(rt, "dur")
		if rapid.Bool().Draw(rt, "quick") {
			t.Dur = 0
		}
		if rapid.IntRange(0, 7).Draw(rt, "slow") == 0 {
			t.Dur = t.Int * rapid.IntRange(1, 3).Draw(rt, "slower")
		}
		for k := rapid.IntRange(1, 5).Draw(rt, "acts"); k > 0; k-- {
			t.Acts = append(t.Acts, rapid.SampledFrom([]string{"ok", "ok", "ok", "err", "panic", "end"}).Draw(rt, "act"))
		}
		sc.Tasks = append(sc.Tasks, t)
		in := -1
		if rapid.IntRange(0, 5).Draw(rt, "ins") == 0 {
			in = rapid.IntRange(0, n-1).Draw(rt, "inside")
		}
		sc.Inside = append(sc.Inside, in)
	}
	sc.Ops = append(sc.Ops, top{At: 0, Do: "startall"})
	for k := rapid.IntRange(0, 8).Draw(rt, "ops"); k > 0; k-- {
		sc.Ops = append(sc.Ops, top{At: rapid.IntRange(0, sc.Until).Draw(rt, "at"), Do: rapid.SampledFrom([]string{"start", "start", "stop", "stop", "stopname", "startall", "stopall", "remove", "remove", "add"}).Draw(rt, "do"),
			Task: rapid.IntRange(0, n).Draw(rt, "task")})
	}
	if rapid.IntRange(0, 3).Draw(rt, "crowded") == 0 {
		sc.Crowd = rapid.IntRange(2, 8).Draw(rt, "crowd")
	}
	return sc
}

type trun struct {
	start, end time.Duration
	before     int // calls of the hook since the run before
	after      int
	exc        []string
	act        string
}

func TestT03(t *testing.T) {
	hx.Check(t, "T03", "a task was stopped or started while waiting or running, or a run failed or panicked", genT03, func(t *testing.T, sc scnT03) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runT03(sc) })
	})
}

func runT03(sc scnT03) hx.Out {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	var mu sync.Mutex
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	ts := timer.Init()
	var bad string
	var beg [9]bool // between before and end hook
	index := func(c *timer.TimerContext) int {
		n := -1
		fmt.Sscanf(c.TimerID, "task%d", &n)
		return n
	}
	type shape struct {
		runs            []*trun
		ctx             *timer.TimerContext
		befores, skips  []time.Duration
		ends            []time.Duration
		excs            []string
		raised          []string
		bodies, blocked int
	}
	sh := make([]*shape, len(sc.Tasks))
	for i := range sh {
		sh[i] = &shape{}
	}
	if strings.Contains(sc.Hooks, "b") {
		ts.SetOnBeforeHandler(func(c *timer.TimerContext) error {
			mu.Lock()
			defer mu.Unlock()
			i := index(c)
			s := sh[i]
			act := sc.Tasks[i].Acts[len(s.befores)%len(sc.Tasks[i].Acts)]
			s.befores = append(s.befores, now())
			beg[i] = true
			c.IsEnd = act == "end"
			if c.IsEnd {
				s.skips = append(s.skips, now())
			}
			return nil
		})
	}
	if strings.Contains(sc.Hooks, "e") {
		ts.SetOnEndHandler(func(c *timer.TimerContext) error {
			mu.Lock()
			defer mu.Unlock()
			sh[index(c)].ends = append(sh[index(c)].ends, now())
			return nil
		})
	}
	if strings.Contains(sc.Hooks, "x") {
		ts.SetExceptionHandler(func(c *timer.TimerContext, err error) {
			mu.Lock()
			defer mu.Unlock()
			sh[index(c)].excs = append(sh[index(c)].excs, err.Error())
		})
	} else {
		ts.SetExceptionHandler(nil)
	}
	stopAt := make([][]time.Duration, len(sc.Tasks)) // stops from inside
	handles := make([]timer.Timer, len(sc.Tasks))
	out := make([]bool, len(sc.Tasks)) // removed from the service
	var stopOf func(i int)
	body := func(i int) timer.TimerHandleFunc {
		return func(c *timer.TimerContext) error {
			mu.Lock()
			s := sh[i]
			if c == nil || c.TimerID != fmt.Sprintf("task%d", i) || c.TimerData != any(i) || s.ctx != nil && s.ctx != c {
				bad = fmt.Sprintf("task %d runs on the context %+v", i, c)
			}
			s.ctx = c
			act := sc.Tasks[i].Acts[s.bodies%len(sc.Tasks[i].Acts)]
			if strings.Contains(sc.Hooks, "b") {
				act = sc.Tasks[i].Acts[(len(s.befores)-1+len(sc.Tasks[i].Acts))%len(sc.Tasks[i].Acts)]
			}
			s.bodies++
			r := &trun{start: now(), act: act, end: -1}
			s.runs = append(s.runs, r)
			n := s.bodies
			mu.Unlock()
			if in := sc.Inside[i]; in >= 0 && n == 3 {
				time.Sleep(time.Duration(i+1) * time.Microsecond)
				mu.Lock()
				if !out[in] {
					stopAt[in] = append(stopAt[in], now())
				}
				mu.Unlock()
				stopOf(in)
			}
			time.Sleep(ms(sc.Tasks[i].Dur))
			mu.Lock()
			defer mu.Unlock()
			r.end = now()
			switch act {
			case "err":
				s.raised = append(s.raised, fmt.Sprintf("err%d", n))
				return fmt.Errorf("err%d", n)
			case "panic":
				s.raised = append(s.raised, fmt.Sprintf("pan%d", n))
				if n%2 == 0 {
					panic(errors.New(fmt.Sprintf("pan%d", n)))
				}
				panic(fmt.Sprintf("pan%d", n))
			}
			return nil
		}
	}
	for i, t := range sc.Tasks {
		name := fmt.Sprintf("task%d", i)
		if t.Direct {
			tt, err := timer.NewTickTimer(name, t.Run, int64(t.Due), int64(t.Int), body(i), i)
			if err != nil {
				return hx.Fail("NewTickTimer: %v", err)
			}
			handles[i] = tt
			ts.AddTask(tt)
		} else {
			tt, err := ts.NewTickTask(name, t.Run, int64(t.Due), int64(t.Int), body(i), i)
			if err != nil || tt.TimerID() != name {
				return hx.Fail("NewTickTask: %v", err)
			}
			handles[i] = tt
		}
	}
	stopOf = func(i int) { ts.StopTask(fmt.Sprintf("task%d", i)) }
	// the ops in order; the model of each task: its intervals of being started
	type span struct{ from, to time.Duration }
	spans := make([][]span, len(sc.Tasks))
	on := make([]bool, len(sc.Tasks))
	endless := time.Duration(1 << 60)
	insideStops := func(i int) { // stops from inside come between the operations
		for _, at := range stopAt[i] {
			if on[i] {
				on[i] = false
				spans[i][len(spans[i])-1].to = at
			}
		}
		stopAt[i] = nil
	}
	setOn := func(i int, v bool) {
		mu.Lock()
		defer mu.Unlock()
		insideStops(i)
		if out[i] || v == on[i] || !sc.Tasks[i].Run {
			return
		}
		on[i] = v
		if v {
			spans[i] = append(spans[i], span{now(), endless})
		} else {
			spans[i][len(spans[i])-1].to = now()
		}
	}
	lab := hx.Labels{}
	ops := append([]top(nil), sc.Ops...)
	for a := range ops { // by time, stable
		for b := a; b > 0 && ops[b].At < ops[b-1].At; b-- {
			ops[b], ops[b-1] = ops[b-1], ops[b]
		}
	}
	for k, o := range ops {
		if d := ms(o.At) + time.Duration(k+1)*7*time.Microsecond - now(); d > 0 {
			time.Sleep(d)
		}
		name := fmt.Sprintf("task%d", o.Task)
		switch o.Do {
		case "start":
			ts.StartTask(name)
			if o.Task < len(sc.Tasks) {
				setOn(o.Task, true)
			}
		case "stop":
			ts.StopTask(name)
			if o.Task < len(sc.Tasks) {
				setOn(o.Task, false)
			}
		case "stopname":
			if err := ts.Stop(name); (err == nil) != (o.Task < len(sc.Tasks) && !out[o.Task]) {
				return hx.Fail("Stop(%s): %v", name, err)
			}
			if o.Task < len(sc.Tasks) {
				setOn(o.Task, false)
			}
		case "remove", "add": // a task that is not in the service goes on as it is
			if o.Task >= len(sc.Tasks) {
				ts.RemoveTask(name)
				break
			}
			mu.Lock()
			insideStops(o.Task)
			out[o.Task] = o.Do == "remove"
			mu.Unlock()
			if o.Do == "remove" {
				ts.RemoveTask(name)
				lab["removed"] = true
			} else {
				ts.AddTask(handles[o.Task])
			}
		case "startall", "stopall":
			if o.Do == "startall" {
				ts.StartAllTask()
			} else {
				ts.StopAllTask()
			}
			for i := range sc.Tasks {
				setOn(i, o.Do == "startall")
			}
		}
	}
	if sc.Crowd > 0 {
		lab["concurrent use"] = true
		var wg sync.WaitGroup
		for g := 0; g < sc.Crowd; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					name := fmt.Sprintf("more%d-%d", g, k)
					ts.NewTickTask(name, false, 0, 10, func(*timer.TimerContext) error { return nil }, nil)
					ts.StartTask(name)
					ts.StopTask(name)
					ts.Stop(name)
					if k%8 == 0 {
						ts.StartAllTask()
					}
					if k%2 == 0 {
						ts.RemoveTask(name)
					}
				}
			}()
		}
		wg.Wait()
		for i := range sc.Tasks {
			setOn(i, true)
		}
	}
	if d := ms(sc.Until) + 500*time.Microsecond - now(); d > 0 {
		time.Sleep(d)
	}
	for i := range sc.Tasks {
		mu.Lock()
		insideStops(i)
		out[i] = false
		mu.Unlock()
		ts.AddTask(handles[i])
	}
	ts.StopAllTask()
	for i := range sc.Tasks {
		setOn(i, false)
	}
	time.Sleep(400 * time.Millisecond) // nothing more happens
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		return hx.Fail("%s", bad)
	}
	nt := false
	for i, t := range sc.Tasks {
		s := sh[i]
		hasB, hasE, hasX := strings.Contains(sc.Hooks, "b"), strings.Contains(sc.Hooks, "e"), strings.Contains(sc.Hooks, "x")
		starts := s.befores
		if !hasB {
			starts = nil
			for _, r := range s.runs {
				starts = append(starts, r.start)
			}
		}
		slow := t.Dur >= t.Int
		// the runs that have to be
		var want []time.Duration
		for _, p := range spans[i] {
			first := p.from + ms(max(t.Due, 0))
			for at := first; at < p.to; at += ms(t.Int) {
				want = append(want, at)
			}
		}
		show := fmt.Sprintf("task %d %+v, on during %v", i, t, spans[i])
		overlap := false // a run goes on past the stop: later runs may have to wait for it
		for k := 0; k+1 < len(spans[i]); k++ {
			overlap = overlap || spans[i][k+1].from+ms(max(t.Due, 0)) < spans[i][k].to+ms(t.Dur)
		}
		if !slow && !overlap {
			if fmt.Sprint(starts) != fmt.Sprint(want) {
				return hx.Fail("%s: ran at %v, want %v", show, starts, want)
			}
		} else {
			lab["slow body"] = true
			for _, at := range starts {
				in := false
				for _, p := range spans[i] {
					in = in || at >= p.from+ms(max(t.Due, 0)) && at < p.to
				}
				if !in {
					return hx.Fail("%s: ran at %v", show, at)
				}
			}
			if len(starts) > len(want) {
				return hx.Fail("%s: ran %d times, at most %d", show, len(starts), len(want))
			}
			for _, p := range spans[i] {
				if first := p.from + ms(max(t.Due, 0)); first < p.to && !overlap {
					found := false
					for _, at := range starts {
						found = found || at == first
					}
					if !found && !slow {
						return hx.Fail("%s: ran at %v, not at %v", show, starts, first)
					}
				}
			}
		}
		// hooks, skipped bodies, failures
		ends := 0
		for _, r := range s.runs {
			if r.act != "panic" {
				ends++
			}
		}
		if hasB && len(s.befores) != len(s.runs)+len(s.skips) {
			return hx.Fail("%s: %d runs begun, %d bodies, %d skipped", show, len(s.befores), len(s.runs), len(s.skips))
		}
		if hasE {
			ends += len(s.skips)
			panics := len(s.runs) + len(s.skips) - ends
			if len(s.ends) < ends || len(s.ends) > ends+panics {
				return hx.Fail("%s: the end hook ran %d times for %d runs, %d of them panicking", show, len(s.ends), len(s.runs)+len(s.skips), panics)
			}
		}
		if hasX && fmt.Sprint(s.excs) != fmt.Sprint(s.raised) && !slow && !overlap {
			return hx.Fail("%s: the exception hook got %v, raised were %v", show, s.excs, s.raised)
		}
		if len(s.raised) > 0 {
			nt = true
			for _, r := range s.runs {
				lab["run: "+r.act] = true
			}
		}
		if len(s.skips) > 0 {
			lab["body skipped"] = true
		}
		for k, p := range spans[i] {
			if p.to < p.from+ms(t.Due) {
				nt = true
				lab["stopped during the delay"] = true
			}
			if k > 0 {
				nt = true
				lab["restarted"] = true
			}
		}
		if !t.Run {
			lab["not runnable"] = true
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}
