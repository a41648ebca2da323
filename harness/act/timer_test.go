package act

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ A10

type tctl struct {
	At    int    `json:"at"` // ms
	Timer int    `json:"timer"`
	Do    string `json:"do"`            // stop, cancel, reset
	Int   int    `json:"int,omitempty"` // reset: new interval, 0 keeps
}

type scnA10 struct {
	Actors int     `json:"actors"`
	Timers []Tmr   `json:"timers"`
	Ctl    []tctl  `json:"ctl"`
	Busy   []Tmr   `json:"busy,omitempty"` // handler load: at Due ms the actor is busy for Dur ms
	Len    int     `json:"len"`
	Storm  *Tstorm `json:"storm,omitempty"`
}

// Tstorm is a case on real threads: while Init still sets timers, the ones
// that are due set and cancel others, and so do goroutines from outside.
type Tstorm struct {
	Actors  int `json:"actors"`
	Init    int `json:"init"`    // timers set by Init
	Each    int `json:"each"`    // timers set and cancelled by every source
	Outside int `json:"outside"` // goroutines
}

func tstorm(s *Tstorm) hx.Out {
	style = 0
	never := func(any) error { return nil }
	var mu sync.Mutex
	var first error
	bad := func(f string, a ...any) {
		mu.Lock()
		if first == nil {
			first = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	churn := func(a *hb.Act) {
		for i := 0; i < s.Each; i++ {
			t := a.OnTimer(1, 1, func(any) error { return nil }, nil)
			a.CancelTimer(t)
			if t.IsActive() {
				bad("a cancelled timer is active")
			}
		}
	}
	var acts []*hb.Act
	fired := make([][]atomic.Int32, s.Actors)
	var started sync.WaitGroup
	w := hb.New(hb.Spec{Ty: "t", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			k := len(acts)
			acts = append(acts, a)
			fired[k] = make([]atomic.Int32, s.Init)
			started.Add(1)
			a.OnTimer(1, 0, func(any) error { defer started.Done(); churn(a); return nil }, nil)
			time.Sleep(time.Millisecond)
			for i := 0; i < s.Init; i++ {
				a.OnTimer(1000000, 0, never, nil)
				t := a.OnTimer(20, 0, func(any) error { fired[k][i].Add(1); return nil }, nil)
				if i%3 == 0 {
					a.CancelTimer(t)
				}
			}
		})
	}})
	n := w.Node("n1", "127.0.0.1", 0)
	var wg sync.WaitGroup
	for i := 0; i < s.Actors; i++ {
		_, err := n.Reg("t", aid(i))
		hb.Must(err)
		for j := 0; j < s.Outside; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); churn(acts[i]) }()
		}
	}
	wg.Wait()
	started.Wait()
	sum := func() int {
		t := 0
		for k := range fired {
			for i := range fired[k] {
				if i%3 != 0 && fired[k][i].Load() > 0 {
					t++
				}
			}
		}
		return t
	}
	want := s.Actors * (s.Init - (s.Init+2)/3)
	for t0 := time.Now(); sum() < want && time.Since(t0) < 20*time.Second; {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond)
	for k := range fired {
		for i := range fired[k] {
			if c := fired[k][i].Load(); i%3 != 0 && c != 1 {
				bad("timer %d of actor %d, due once, fired %d times", i, k, c)
			}
		}
	}
	t0 := time.Now()
	w.Close()
	if d := time.Since(t0); d > 20*time.Second {
		bad("the exit took %v", d)
	}
	return hx.Out{Err: first, NonTrivial: true, Labels: []string{"storm"}}
}

// model of one timer, in an actor that is always free when a tick comes
type tmodel struct {
	active  bool
	next    time.Duration // next firing, if active
	intv    time.Duration
	fires   []time.Duration
	oneshot bool
	fuzzy   bool
}

func (m *tmodel) advance(to time.Duration) {
	for m.active && m.next >= 0 && m.next < to {
		m.fires = append(m.fires, m.next)
		if m.intv == 0 {
			m.active, m.next = false, -1
		} else {
			m.next += m.intv
		}
	}
}

func genA10(rt *rapid.T) scnA10 {
	if rapid.IntRange(0, 127).Draw(rt, "storm") == 37 {
		return scnA10{Storm: &Tstorm{Actors: rapid.IntRange(1, 6).Draw(rt, "sactors"), Init: rapid.IntRange(3, 600).Draw(rt, "init"),
			Each: rapid.IntRange(1, 600).Draw(rt, "each"), Outside: rapid.IntRange(0, 3).Draw(rt, "outside")}}
	}
	sc := scnA10{Actors: rapid.IntRange(1, 2).Draw(rt, "actors")}
	for i := rapid.IntRange(1, 4).Draw(rt, "timers"); i > 0; i-- {
		tm := Tmr{Actor: rapid.IntRange(0, sc.Actors-1).Draw(rt, "a"), Due: rapid.IntRange(0, 60).Draw(rt, "due"), Int: rapid.IntRange(0, 40).Draw(rt, "int")}
		if rapid.IntRange(0, 3).Draw(rt, "nodue") == 0 {
			tm.Due = 0
		}
		if rapid.IntRange(0, 3).Draw(rt, "noint") == 0 {
			tm.Int = 0
		}
		sc.Timers = append(sc.Timers, tm)
	}
	at := 0
	for i := rapid.IntRange(0, 7).Draw(rt, "ctl"); i > 0; i-- {
		at += rapid.IntRange(0, 40).Draw(rt, "gap")
		c := tctl{At: at, Timer: rapid.IntRange(0, len(sc.Timers)-1).Draw(rt, "timer"), Do: rapid.SampledFrom([]string{"stop", "cancel", "reset"}).Draw(rt, "do")}
		if c.Do == "reset" {
			c.Int = rapid.IntRange(0, 30).Draw(rt, "rint")
		}
		sc.Ctl = append(sc.Ctl, c)
	}
	if rapid.IntRange(0, 2).Draw(rt, "load") == 0 {
		for i := rapid.IntRange(1, 3).Draw(rt, "busy"); i > 0; i-- {
			sc.Busy = append(sc.Busy, Tmr{Actor: rapid.IntRange(0, sc.Actors-1).Draw(rt, "ba"), Due: rapid.IntRange(0, 150).Draw(rt, "bat"), Dur: rapid.IntRange(5, 80).Draw(rt, "bdur")})
		}
	}
	sc.Len = rapid.IntRange(100, 400).Draw(rt, "len")
	return sc
}

func TestA10(t *testing.T) {
	hx.Check(t, "A10", "a timer fired at least twice, or was stopped, cancelled or reset", genA10, func(t *testing.T, sc scnA10) hx.Out {
		if sc.Storm != nil {
			return tstorm(sc.Storm)
		}
		return hx.Bubble(t, func() hx.Out { return runA10(sc) })
	})
}

type firing struct {
	at   time.Duration
	next time.Time
}

func runA10(sc scnA10) hx.Out {
	e := &eng{}
	w := Scn{Actors: sc.Actors, Events: 1, Tail: sc.Len}
	for _, b := range sc.Busy {
		w.Prods = append(w.Prods, []Op{{At: b.Due, To: b.Actor, Kind: "send", Dur: b.Dur}})
	}
	e.start(&w)
	fires := make([][]firing, len(sc.Timers))
	tims := make([]core.ITimer, len(sc.Timers))
	ctlAt := make([][]time.Duration, len(sc.Timers)) // stops
	for k, tm := range sc.Timers {
		arg := &struct{ k int }{k}
		tims[k] = e.acts[tm.Actor].OnTimer(int64(tm.Due), int64(tm.Int), func(a any) error {
			e.enter(tm.Actor, fmt.Sprintf("timer%d", k), nil)
			defer e.leave(tm.Actor, fmt.Sprintf("timer%d", k), nil)
			if a != any(arg) {
				e.bad("timer %d got the argument %v", k, a)
			}
			e.mu.Lock()
			fires[k] = append(fires[k], firing{e.now(), tims[k].NextTrigger()})
			e.mu.Unlock()
			if k%2 == 1 {
				return errors.New("ignored")
			}
			return nil
		}, arg)
	}
	// reference model, advanced to each control operation
	mods := make([]*tmodel, len(sc.Timers))
	for k, tm := range sc.Timers {
		mods[k] = &tmodel{active: true, intv: ms(tm.Int), next: ms(tm.Due)}
		if tm.Due == 0 {
			mods[k].next = ms(tm.Int)
		}
	}
	go e.produce()
	l := hx.Labels{}
	loaded := map[int]bool{}
	for _, b := range sc.Busy {
		loaded[b.Actor] = true
		l["load"] = true
	}
	nt := false
	for i, c := range sc.Ctl {
		// control operations fall between the milliseconds at which ticks come
		time.Sleep(ms(c.At) + time.Duration(700+i)*time.Microsecond - e.now())
		m := mods[c.Timer]
		m.advance(e.now())
		nt = true
		l[c.Do] = true
		tm := sc.Timers[c.Timer]
		l.Add(m.active && len(m.fires) == 0, c.Do+"-before-first")
		switch c.Do {
		case "stop":
			got := tims[c.Timer].Stop()
			if got != m.active && !(loaded[tm.Actor] && m.intv == 0) {
				return hx.Fail("stopping timer %d at %v: reported %v, active: %v", c.Timer, e.now(), got, m.active)
			}
			m.active = false
			ctlAt[c.Timer] = append(ctlAt[c.Timer], e.now())
		case "cancel":
			e.acts[tm.Actor].CancelTimer(tims[c.Timer])
			m.active = false
			ctlAt[c.Timer] = append(ctlAt[c.Timer], e.now())
		case "reset":
			ok := tims[c.Timer].Reset(ms(c.Int))
			switch {
			case c.Int > 0 && ms(c.Int) == m.intv && m.active:
				// already running at this rate
			case c.Int == 0 && m.intv == 0:
				if ok {
					return hx.Fail("resetting timer %d without an interval succeeded", c.Timer)
				}
				continue
			default:
				if c.Int > 0 {
					m.intv = ms(c.Int)
				}
				m.active = true
				m.next = e.now() + m.intv
				l["reset-effective"] = true
			}
			if !ok {
				return hx.Fail("resetting timer %d to %d ms was refused", c.Timer, c.Int)
			}
		}
	}
	end := ms(sc.Len) + 950*time.Microsecond
	if d := end - e.now(); d > 0 {
		time.Sleep(d)
	}
	end = e.now()
	e.mu.Lock()
	var err error
	if len(e.viol) > 0 {
		err = errors.New(e.viol[0])
	}
	for k, m := range mods {
		m.advance(end)
		got := fires[k]
		tm := sc.Timers[k]
		if tims[k].IsActive() != m.active && !(loaded[tm.Actor] && m.intv == 0) {
			err = fmt.Errorf("timer %d reports active=%v, expected %v", k, tims[k].IsActive(), m.active)
		}
		if len(m.fires) > 1 {
			nt = true
			l["fired-often"] = true
		}
		l.Add(tm.Int == 0 && len(m.fires) == 1, "one-shot")
		if !loaded[tm.Actor] {
			ok := len(got) == len(m.fires)
			for i := 0; ok && i < len(got); i++ {
				ok = near(got[i].at, m.fires[i])
			}
			if !ok && err == nil {
				err = fmt.Errorf("timer %d (due %d, interval %d) fired at %v, expected at %v", k, tm.Due, tm.Int, got, m.fires)
			}
			continue
		}
		// under load a tick may come late, be merged, or be dropped by a stop
		if err == nil {
			err = e.loadedTimer(k, tm, got, m, ctlAt[k], sc)
		}
	}
	e.mu.Unlock()
	e.w.Close()
	return e.out(err, nt, l)
}

// loadedTimer judges a timer of an actor that was busy now and then.
func (e *eng) loadedTimer(k int, tm Tmr, got []firing, m *tmodel, stops []time.Duration, sc scnA10) error {
	if len(got) > len(m.fires) {
		return fmt.Errorf("timer %d fired %d times, due only %d times (%v, %v)", k, len(got), len(m.fires), got, m.fires)
	}
	resets := false
	for _, c := range sc.Ctl {
		if c.Timer == k && c.Do == "reset" {
			resets = true
		}
	}
	if resets {
		return nil
	}
	for i, f := range got {
		if f.at < m.fires[i] && !near(f.at, m.fires[i]) {
			return fmt.Errorf("timer %d: firing %d at %v, not due before %v", k, i, f.at, m.fires[i])
		}
		for _, s := range stops {
			if f.at > s {
				return fmt.Errorf("timer %d was stopped at %v but its callback started at %v", k, s, f.at)
			}
		}
	}
	// firings outside of busy periods are exact: a tick whose moment found the
	// actor free happened at that moment
	type iv struct{ a, b time.Duration }
	var busy []iv
	for _, in := range e.all {
		if in.op.To == tm.Actor {
			b := in.end
			if in.started > 0 && !in.ended {
				b = 1 << 60
			}
			busy = append(busy, iv{in.offered, b})
		}
	}
	sort.Slice(busy, func(i, j int) bool { return busy[i].a < busy[j].a })
	idle, touched := true, false // in the end
	for _, b := range busy {
		idle = idle && b.b < ms(sc.Len)-ms(1)
	}
	for _, c := range sc.Ctl {
		touched = touched || c.Timer == k
	}
	if idle && !touched && len(got) != len(m.fires) {
		return fmt.Errorf("timer %d was due %d times, it fired %d times (%v, %v)", k, len(m.fires), len(got), got, m.fires)
	}
	at := map[time.Duration]bool{}
	for _, f := range got {
		at[f.at] = true
	}
	for _, d := range m.fires {
		free := true
		for _, b := range busy {
			if d >= b.a && d <= b.b {
				free = false
			}
		}
		hit := at[d]
		for x := range at {
			hit = hit || near(x, d)
		}
		if free && !hit {
			return fmt.Errorf("timer %d was due at %v and its actor free, but it fired at %v", k, d, got)
		}
	}
	return nil
}

func near(a, b time.Duration) bool { return a-b < 100*time.Microsecond && b-a < 100*time.Microsecond }
