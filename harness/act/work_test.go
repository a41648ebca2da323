package act

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

func labels(e *eng) hx.Labels {
	l := hx.Labels{}
	for _, in := range e.all {
		l.Add(in.op.Kind == "pub" && in.started > 0, "published")
		l.Add(in.op.Kind == "call", "call")
		l.Add(in.op.N > 1, "burst")
		l.Add(in.op.Fault != "" && in.started > 0, "fault-"+in.op.Fault)
		l.Add(in.op.Ev >= e.sc.Events, "no-chain")
		l.Add(in.par != nil, "nested")
	}
	for _, n := range e.tix {
		l.Add(n > 0, "timer-fired")
	}
	l.Add(e.waited() > 0, "contended")
	return l
}

// ------------------------------------------------------------------ A01

type scnA01 struct {
	Scn
	Storm *Storm `json:"storm,omitempty"`
}

func TestA01(t *testing.T) {
	gen := func(rt *rapid.T) scnA01 {
		var sc scnA01
		if sc.Storm = genStorm(rt, []int{0, 1, 10, 100}, 1); sc.Storm != nil {
			return sc
		}
		genOps(rt, genCfg{actors: 4, prods: 5, ops: 6, kinds: []string{"call", "send", "send", "pub"}, burst: 12, maxDur: 30, gap: 25,
			faults: []string{"err", "panic"}, long: true, crowd: 800, guests: 6}, &sc.Scn)
		genTimers(rt, &sc.Scn, 5, false)
		genSlowTimers(rt, &sc.Scn)
		return sc
	}
	hx.Check(t, "A01", "some message found its actor busy and several sources (messages, timers, publications) reached one actor", gen, func(t *testing.T, sc scnA01) hx.Out {
		if sc.Storm != nil {
			return storm(sc.Storm)
		}
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			e.start(&sc.Scn)
			e.produce()
			e.settle()
			e.w.Close()
			l := labels(e)
			src := 0
			for _, s := range []string{"published", "timer-fired", "contended"} {
				if l[s] {
					src++
				}
			}
			return e.out(firstErr(e.sound, e.conserving), src >= 2, l)
		})
	})
}

// ------------------------------------------------------------------ A02

type scnA02 struct {
	Scn
	Dup   []int  `json:"dup"` // events whose second registration is tried
	Storm *Storm `json:"storm,omitempty"`
}

func TestA02(t *testing.T) {
	gen := func(rt *rapid.T) scnA02 {
		var sc scnA02
		if sc.Storm = genStorm(rt, []int{0, 0, 1, 10}, 2); sc.Storm != nil {
			return sc
		}
		genOps(rt, genCfg{actors: 3, prods: 5, ops: 8, kinds: []string{"call", "send", "send", "send"}, burst: 24, maxDur: 12, gap: 8, unknown: true, long: true, crowd: 2000}, &sc.Scn)
		genAgain(rt, &sc.Scn)
		if rapid.IntRange(0, 31).Draw(rt, "hasmany") == 17 {
			sc.Many = rapid.SampledFrom([]int{10, 40, 150, 1100}).Draw(rt, "many")
		}
		for i := 0; i < sc.Events; i++ {
			if rapid.Bool().Draw(rt, "dup") {
				sc.Dup = append(sc.Dup, i)
			}
		}
		return sc
	}
	hx.Check(t, "A02", "some message waited behind others, and at least five messages ran", gen, func(t *testing.T, sc scnA02) hx.Out {
		if sc.Storm != nil {
			return storm(sc.Storm)
		}
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			e.start(&sc.Scn)
			for a := range e.acts {
				for _, k := range sc.Dup {
					if err := e.acts[a].OnEvent(ev(k), e.chain(a, "second registration of "+ev(k))); err == nil {
						return hx.Fail("the second registration of %s was accepted", ev(k))
					}
				}
			}
			e.produce()
			e.settle()
			l := labels(e)
			l.Add(len(sc.Dup) > 0, "duplicate-registration")
			ran := 0
			for _, in := range e.all {
				if in.started > 0 {
					ran++
				}
				if in.err != nil && !in.gaveUp() {
					return hx.Fail("m%d to an open actor was refused: %v", in.id, in.err)
				}
			}
			err := firstErr(e.sound, e.order, e.conserving, e.calls, e.dropped, e.unknownReleased)
			e.w.Close()
			return e.out(err, ran >= 5 && l["contended"], l)
		})
	})
}

// unknownReleased: the caller of a message without chain is released as soon
// as its turn has come: when it was offered or when a callback of that actor ended.
func (e *eng) unknownReleased() error {
	for _, in := range e.all {
		if in.op.Kind != "call" || in.op.Ev < e.sc.Events || in.err != nil || in.returned-in.offered == 5*time.Second {
			continue
		}
		ok := in.returned == in.offered
		for _, r := range e.log {
			if r.actor == in.op.To && !r.start && r.t == in.returned {
				ok = true
			}
		}
		if !ok || in.mwErr != nil {
			return fmt.Errorf("m%d has no chain at its target; offered at %v, its caller was released at %v (%v)", in.id, in.offered, in.returned, in.mwErr)
		}
	}
	return nil
}

// ------------------------------------------------------------------ A03

func TestA03(t *testing.T) {
	gen := func(rt *rapid.T) Scn {
		var sc Scn
		genOps(rt, genCfg{actors: 3, prods: 4, ops: 7, kinds: []string{"call", "call", "send", "pub"}, maxDur: 20, gap: 25, burst: 5, unknown: true, long: true, crowd: 300,
			faults: []string{"berr", "bpanic", "err", "panic", "aerr", "apanic"}}, &sc)
		genTimers(rt, &sc, 3, true)
		if rapid.IntRange(0, 2).Draw(rt, "longer") == 1 {
			for _, tm := range sc.Timers {
				sc.Tail = max(sc.Tail, tm.Int*rapid.IntRange(10, 60).Draw(rt, "ticks"))
			}
		}
		genSlowTimers(rt, &sc)
		return sc
	}
	hx.Check(t, "A03", "a callback failed and the same actor ran something afterwards", gen, func(t *testing.T, sc Scn) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			e.start(&sc)
			e.produce()
			e.settle()
			endAt := e.now()
			e.w.Close()
			l := labels(e)
			failed := map[int]bool{}
			after := false
			for _, r := range e.log {
				if r.start && failed[r.actor] {
					after = true
				}
				if !r.start && r.in != nil && r.in.op.Fault != "" {
					failed[r.actor] = true
				}
			}
			err := firstErr(e.sound, e.conserving, e.calls, e.dropped)
			if err == nil {
				err = e.rates(endAt)
			}
			return e.out(err, after, l)
		})
	})
}

// rates checks that a timer of an actor that ran something for a while kept
// its rate until endAt: what else the actor did can have cost it the ticks that
// fell into that time, and one each time.
func (e *eng) rates(endAt time.Duration) error {
	for k, tm := range e.sc.Timers {
		first := tm.Due
		if first == 0 {
			first = tm.Int
		}
		what := fmt.Sprintf("timer%d", k)
		var load, begun time.Duration
		n := 0
		for _, r := range e.log {
			if r.actor != tm.Actor || r.what == what {
				continue
			}
			if r.start {
				begun = r.t
			} else {
				load += r.t - begun
				n++
			}
		}
		if endAt < ms(first+tm.Int) {
			continue
		}
		want := 1
		if tm.Int > 0 {
			span := endAt - ms(first) - ms(tm.Dur) - load
			want = int(span/ms(tm.Int)) - n - 2
		} else if endAt < ms(first+tm.Dur)+load+ms(10) {
			continue
		}
		if e.tix[k] < want {
			return fmt.Errorf("timer %d (due %d, interval %d, fault %s) ran only %d times in %v, although its actor spent only %v on %d other things", k, tm.Due, tm.Int, tm.Fault, e.tix[k], endAt, load, n)
		}
	}
	return nil
}

var _ = hb.Must
