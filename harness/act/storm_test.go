package act

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// Storm is a workload for real threads: goroutines that send or call in a
// tight loop, towards actors whose handlers do next to nothing, so that both
// ends of every queue and of every message are busy at once.
type Storm struct {
	Actors  int `json:"actors"`
	Senders int `json:"senders"`
	Each    int `json:"each"`   // messages per sender
	Calls   int `json:"calls"`  // of a hundred messages, this many are calls
	Hops    int `json:"hops"`   // how far a handler passes on what it was called with
	Spread  int `json:"spread"` // every sender rotates over this many actors
}

// genStorm draws a storm for one in about a hundred cases.
func genStorm(rt *rapid.T, calls []int, hops int) *Storm {
	const rare = 37
	if rapid.IntRange(0, 63).Draw(rt, "storm") != rare {
		return nil
	}
	s := &Storm{Actors: rapid.IntRange(1, 8).Draw(rt, "sactors"), Senders: rapid.IntRange(2, 16).Draw(rt, "senders"),
		Calls: rapid.SampledFrom(calls).Draw(rt, "scalls"), Hops: rapid.IntRange(0, hops).Draw(rt, "hops")}
	s.Spread = rapid.IntRange(1, s.Actors).Draw(rt, "spread")
	total := 60000 / (1 + s.Hops) * 10 / (10 + s.Calls)
	s.Each = total / s.Senders
	return s
}

// storm runs it. Every accepted message has to run exactly once, one at a
// time per actor and in the order of its sender; every call has to return
// after everything it set off, with the response of its handler.
func storm(s *Storm) hx.Out {
	style = 0
	w := hb.New()
	// all written by the actors' own goroutines, one after the other
	type seen struct {
		busy bool
		last map[int]int
		err  error
	}
	st := make([]*seen, s.Actors)
	var runs atomic.Int64
	done := make([][]atomic.Int32, s.Senders)
	for i := range done {
		done[i] = make([]atomic.Int32, s.Each)
	}
	w.Fac.Add(hb.Spec{Ty: "t", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			k, _ := strconv.Atoi(a.Id[1:])
			me := &seen{last: map[int]int{}}
			st[k] = me
			hb.Must(a.OnEvent("ev", func(ctx core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
					if me.busy && me.err == nil {
						me.err = fmt.Errorf("actor %d ran two messages at a time", k)
					}
					me.busy = true
					snd, seq, hop, call := parseStorm(mw.Req.Body)
					if hop == 0 {
						if prev, ok := me.last[snd]; ok && seq <= prev && me.err == nil {
							me.err = fmt.Errorf("actor %d ran message %d of sender %d after message %d", k, seq, snd, prev)
						}
						me.last[snd] = seq
					}
					if hop < s.Hops && k+1 < s.Actors {
						f := ctx.Call
						if seq%2 == 1 {
							f = func(id, ty, ev string, m *msg.Wrapper) error { return ctx.Send(id, ty, ev, m) }
						}
						m := msg.NewBuilder(mw.Ctx).WithReqBody(stormBody(snd, seq, hop+1, call)).Build()
						if err := f(aid(k+1), "t", "ev", m); err != nil && me.err == nil {
							me.err = fmt.Errorf("passing on message %d of sender %d: %v", seq, snd, err)
						}
					}
					mw.Res.Body = append(mw.Res.Body, mw.Req.Body...)
					me.busy = false
					done[snd][seq].Add(1)
					runs.Add(1)
					return nil
				}}
			}))
		})
	}})
	n := w.Node("n1", "127.0.0.1", 0)
	for i := 0; i < s.Actors; i++ {
		_, err := n.Reg("t", aid(i))
		hb.Must(err)
	}
	var slow atomic.Bool
	var want atomic.Int64
	hops := func(to int) int { return min(s.Hops, s.Actors-1-to) }
	var mu sync.Mutex
	var first error
	bad := func(f string, a ...any) {
		mu.Lock()
		if first == nil {
			first = fmt.Errorf(f, a...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for k := 0; k < s.Senders; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < s.Each; i++ {
				to := (k + i%s.Spread) % s.Actors
				want.Add(int64(1 + hops(to)))
				call := (i*37+k)%100 < s.Calls
				body := stormBody(k, i, 0, call)
				m := msg.NewBuilder(context.Background()).WithReqBody(body).Build()
				if !call {
					if err := n.Sys.Send(aid(to), "t", "ev", m); err != nil {
						bad("message %d of sender %d was refused: %v", i, k, err)
						return
					}
					continue
				}
				t0 := time.Now()
				if err := n.Sys.Call(aid(to), "t", "ev", m); err != nil {
					if time.Since(t0) > 4*time.Second {
						slow.Store(true) // it may have taken the five seconds
						continue
					}
					bad("call %d of sender %d: %v", i, k, err)
					return
				}
				if c := int(done[k][i].Load()); c != 1+hops(to) || string(m.Res.Body) != string(body) {
					bad("call %d of sender %d returned with response %q when %d of its %d handlers had finished", i, k, m.Res.Body, c, 1+hops(to))
					return
				}
			}
		}()
	}
	wg.Wait()
	for t0 := time.Now(); first == nil && runs.Load() < want.Load() && time.Since(t0) < 20*time.Second; {
		time.Sleep(time.Millisecond)
	}
	for k := range done {
		for i := range done[k] {
			to := (k + i%s.Spread) % s.Actors
			if c := int(done[k][i].Load()); c != 1+hops(to) && first == nil {
				bad("message %d of sender %d made %d handlers run, want %d", i, k, c, 1+hops(to))
			}
		}
	}
	w.Close()
	for k := range st {
		if st[k].err != nil {
			bad("%v", st[k].err)
		}
	}
	l := hx.Labels{"storm": true}
	l.Add(slow.Load(), "storm-slow")
	if first != nil {
		return hx.Out{Err: fmt.Errorf("storm: %w", first), NonTrivial: true, Labels: l.List()}
	}
	return hx.Out{NonTrivial: true, Labels: l.List()}
}

func stormBody(snd, seq, hop int, call bool) []byte {
	return []byte(fmt.Sprintf("%d/%d/%d/%v", snd, seq, hop, call))
}

func parseStorm(b []byte) (int, int, int, bool) {
	p := strings.Split(string(b), "/")
	snd, _ := strconv.Atoi(p[0])
	seq, _ := strconv.Atoi(p[1])
	hop, _ := strconv.Atoi(p[2])
	return snd, seq, hop, p[3] == "true"
}
