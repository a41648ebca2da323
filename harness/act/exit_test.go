package act

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ A05

type exitOp struct {
	At    int    `json:"at"`
	Actor int    `json:"actor"`
	How   string `json:"how"` // exit, unreg, node
	N     int    `json:"n"`   // issued concurrently
}

type scnA05 struct {
	Scn
	Exits  []exitOp `json:"exits"`
	Cancel []int    `json:"cancel,omitempty"` // timers cancelled right at the start
}

type exitRes struct {
	actor    int
	how      string
	began    time.Duration
	returned time.Duration
	done     bool
	err      error
}

func genA05(rt *rapid.T) scnA05 {
	var sc scnA05
	cfg := genCfg{actors: 3, prods: 4, ops: 6, kinds: []string{"call", "send", "send"}, maxDur: 30, gap: 25, burst: 8}
	if rapid.IntRange(0, 9).Draw(rt, "heavy") == 0 {
		cfg.maxDur, cfg.burst = 6000, 0
	}
	if rapid.IntRange(0, 3).Draw(rt, "pubs") == 0 {
		cfg.kinds = append(cfg.kinds, "pub")
	}
	genOps(rt, cfg, &sc.Scn)
	genTimers(rt, &sc.Scn, 4, false)
	for i := range sc.Timers {
		switch rapid.IntRange(0, 4).Draw(rt, "tk") {
		case 0:
			sc.Timers[i].Due = rapid.IntRange(500, 20000).Draw(rt, "latedue")
		case 1:
			sc.Timers[i].Int, sc.Timers[i].Dur = 0, 0
		}
		if rapid.IntRange(0, 3).Draw(rt, "cancel") == 0 {
			sc.Cancel = append(sc.Cancel, i)
		}
	}
	for i := rapid.IntRange(1, 4).Draw(rt, "exits"); i > 0; i-- {
		sc.Exits = append(sc.Exits, exitOp{At: rapid.IntRange(0, 150).Draw(rt, "xat"), Actor: rapid.IntRange(0, sc.Actors-1).Draw(rt, "xa"),
			How: rapid.SampledFrom([]string{"exit", "exit", "unreg", "node"}).Draw(rt, "how"), N: rapid.IntRange(1, 3).Draw(rt, "xn")})
	}
	return sc
}

func TestA05(t *testing.T) {
	hx.Check(t, "A05", "an actor had unfinished messages or a live timer when its shutdown began", genA05, func(t *testing.T, sc scnA05) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			e.start(&sc.Scn)
			for _, k := range sc.Cancel {
				e.acts[sc.Timers[k].Actor].CancelTimer(e.tims[k])
			}
			var mu sync.Mutex
			var res []*exitRes
			var wg sync.WaitGroup
			for xi, x := range sc.Exits {
				for c := 0; c < x.N; c++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(ms(x.At) + time.Duration(900+xi)*time.Microsecond - e.now())
						var rs []*exitRes
						for a := 0; a < sc.Actors; a++ {
							if a == x.Actor || x.How == "node" {
								r := &exitRes{actor: a, how: x.How, began: e.now()}
								rs = append(rs, r)
								mu.Lock()
								res = append(res, r)
								mu.Unlock()
							}
						}
						switch x.How {
						case "exit":
							e.acts[x.Actor].Exit()
						case "unreg":
							rs[0].err = e.n.Sys.Unregister(aid(x.Actor), aty(x.Actor))
						case "node":
							var nw sync.WaitGroup
							e.n.Sys.Exit(&nw)
							nw.Wait()
						}
						mu.Lock()
						for _, r := range rs {
							r.returned, r.done = e.now(), true
						}
						mu.Unlock()
					}()
				}
			}
			e.produce()
			wg.Wait()
			time.Sleep(500 * time.Millisecond)
			l := labels(e)
			nt := false
			if err := e.exits(sc, res, l, &nt); err != nil {
				return e.out(err, true, l)
			}
			// long after: still nothing runs
			e.mu.Lock()
			n := len(e.log)
			e.mu.Unlock()
			if sc.Subs {
				time.Sleep(time.Second) // each subscriber polls a hundred times a second
			} else {
				time.Sleep(30 * time.Second)
			}
			e.mu.Lock()
			late := append([]rec(nil), e.log[n:]...)
			e.mu.Unlock()
			for _, r := range late {
				for _, x := range res {
					if x.actor == r.actor {
						return e.out(fmt.Errorf("actor %d ran %s at %v although its shutdown had returned at %v", r.actor, r.what, r.t, x.returned), true, l)
					}
				}
			}
			for _, x := range res {
				if x.how == "unreg" {
					if _, err := e.n.Sys.FindActor(context.Background(), aid(x.actor)); err == nil {
						return hx.Fail("actor %d is still found after it was unregistered", x.actor)
					}
				}
			}
			e.w.Close()
			return e.out(nil, nt, l)
		})
	})
}

func (e *eng) exits(sc scnA05, res []*exitRes, l hx.Labels, nt *bool) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol) > 0 {
		return fmt.Errorf("%s", e.viol[0])
	}
	t0 := map[int]time.Duration{}
	ret := map[int]time.Duration{} // earliest return
	for _, x := range res {
		if x.err != nil {
			return fmt.Errorf("shutdown (%s) of actor %d reported %v", x.how, x.actor, x.err)
		}
		if b, ok := t0[x.actor]; !ok || x.began < b {
			t0[x.actor] = x.began
		}
		if b, ok := ret[x.actor]; !ok || x.returned < b {
			ret[x.actor] = x.returned
		}
		l.Add(true, "by-"+x.how)
	}
	// per actor: work that was still to be done when its shutdown began
	left := map[int]time.Duration{}
	pubs := map[int]bool{}
	for _, in := range e.all {
		b, ok := t0[in.op.To]
		if !ok {
			continue
		}
		if in.op.Kind == "pub" {
			pubs[in.op.To] = true
			continue
		}
		if in.offered > b {
			if in.err == nil {
				return fmt.Errorf("m%d was offered at %v and accepted although the shutdown of actor %d had begun at %v", in.id, in.offered, in.op.To, b)
			}
			if in.started > 0 {
				return fmt.Errorf("m%d was refused but ran", in.id)
			}
			if in.returned != in.offered {
				return fmt.Errorf("m%d was refused only after %v", in.id, in.returned-in.offered)
			}
			l["refused"] = true
			continue
		}
		if in.offered == b {
			continue
		}
		end := in.offered
		if in.started > 0 {
			end = in.end
		}
		if in.started == 0 || end > b {
			d := ms(in.op.Dur + in.op.ADur)
			if in.started > 0 && in.start < b {
				d -= b - in.start
			}
			left[in.op.To] += d
			l["backlog"] = true
			*nt = true
		}
	}
	tdur := map[int]time.Duration{}
	for _, tm := range sc.Timers {
		if d := ms(tm.Dur); d > tdur[tm.Actor] {
			tdur[tm.Actor] = d
		}
		if _, ok := t0[tm.Actor]; ok {
			l["timer"] = true
			*nt = true
		}
	}
	for _, in := range e.all {
		b, ok := t0[in.op.To]
		if !ok || in.op.Kind == "pub" || in.offered >= b {
			continue
		}
		if in.err != nil && in.started == 0 && in.op.Kind == "send" {
			return fmt.Errorf("m%d was offered at %v, before the shutdown of actor %d began at %v, but refused: %v", in.id, in.offered, in.op.To, b, in.err)
		}
		if in.started > 1 {
			return fmt.Errorf("m%d ran %d times", in.id, in.started)
		}
		if left[in.op.To] < 9900*time.Millisecond && !pubs[in.op.To] {
			if in.started != 1 || !in.ended {
				return fmt.Errorf("m%d was accepted at %v, before the shutdown of actor %d began at %v, but ran %d times (remaining work: %v)", in.id, in.offered, in.op.To, b, in.started, left[in.op.To])
			}
			if in.end > ret[in.op.To] {
				return fmt.Errorf("the shutdown of actor %d returned at %v, but m%d ended at %v", in.op.To, ret[in.op.To], in.id, in.end)
			}
		}
	}
	for _, x := range res {
		if !x.done {
			return fmt.Errorf("the shutdown (%s) of actor %d begun at %v never returned", x.how, x.actor, x.began)
		}
		over := left[x.actor] > 9900*time.Millisecond || pubs[x.actor]
		max := t0[x.actor] + left[x.actor] + tdur[x.actor] + 30*time.Millisecond
		if over {
			l["over-ten-seconds"] = true
			max = t0[x.actor] + 10*time.Second + ms(6010) + tdur[x.actor]
		}
		if x.how == "node" {
			// the node waits for all of its actors, and for the lock on its records
			for a := range t0 {
				m := t0[a] + left[a] + tdur[a] + 30*time.Millisecond
				if left[a] > 9900*time.Millisecond || pubs[a] {
					m = t0[a] + 10*time.Second + ms(6010)
				}
				if m > max {
					max = m
				}
			}
			max += 4*700*time.Millisecond + 30*time.Millisecond
		}
		if m := x.began + 30*time.Millisecond; m > max {
			max = m
		}
		if x.how == "node" && x.began+3*time.Second > max {
			max = x.began + 3*time.Second
		}
		if x.returned > max {
			return fmt.Errorf("the shutdown (%s) of actor %d begun at %v returned only at %v (remaining work %v)", x.how, x.actor, x.began, x.returned, left[x.actor])
		}
		open := map[string]bool{}
		for _, r := range e.log {
			if r.actor != x.actor {
				continue
			}
			if r.t > x.returned && r.start {
				return fmt.Errorf("actor %d ran %s at %v although its shutdown (%s) had returned at %v", r.actor, r.what, r.t, x.how, x.returned)
			}
			if r.t > x.returned && !r.start {
				return fmt.Errorf("%s of actor %d was still running when its shutdown (%s) returned at %v", r.what, r.actor, x.how, x.returned)
			}
		}
		_ = open
	}
	return nil
}
