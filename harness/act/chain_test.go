package act

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ A04

type scnA04 struct {
	Before  []string   `json:"before"` // "", err, mark, clear, cancel, ctx, nest
	Handler string     `json:"handler"`
	After   []string   `json:"after"`
	Runs    int        `json:"runs"`
	Flip    [][]string `json:"flip,omitempty"` // per later run the outcomes of all elements in order
}

func genA04(rt *rapid.T) scnA04 {
	out := rapid.SampledFrom([]string{"", "", "", "", "", "", "", "", "err", "err", "mark", "clear", "cancel", "ctx", "nest"})
	if rapid.IntRange(0, 15).Draw(rt, "plain") == 7 {
		out = rapid.SampledFrom([]string{"", "mark", "cancel", "ctx", "nest"})
	}
	sc := scnA04{Before: rapid.SliceOfN(out, 0, 8).Draw(rt, "before"), Handler: out.Draw(rt, "handler"), After: rapid.SliceOfN(out, 0, 8).Draw(rt, "after"),
		Runs: rapid.IntRange(1, 4).Draw(rt, "runs")}
	n := len(sc.Before) + 1 + len(sc.After)
	for i := 1; i < sc.Runs; i++ {
		sc.Flip = append(sc.Flip, rapid.SliceOfN(out, n, n).Draw(rt, "flip"))
	}
	return sc
}

func TestA04(t *testing.T) {
	hx.Check(t, "A04", "the chain has at least three elements", genA04, func(t *testing.T, sc scnA04) hx.Out {
		n := len(sc.Before) + 1 + len(sc.After)
		plan := append(append(append([]string{}, sc.Before...), sc.Handler), sc.After...)
		var ran []int
		var cur *msg.Wrapper
		var fail error
		errs := make([]error, n)
		run := 0
		type ckey struct{}
		var mark error          // the error mark the message carries
		var ctx context.Context // its context
		var cancel func()       // ends that context
		var chain *actor.DefaultChain
		nested := false
		var inner []int
		mk := func(i int) actor.EventHandler {
			return func(mw *msg.Wrapper) error {
				if nested { // another message is on its way through the same chain
					inner = append(inner, i)
					return nil
				}
				if mw != cur {
					fail = fmt.Errorf("element %d got another message than the chain", i)
				}
				want := ""
				for _, k := range ran {
					want += fmt.Sprintf("%d,", k)
				}
				if got := string(mw.Res.Body); got != want {
					fail = fmt.Errorf("element %d of run %d sees what %q wrote, the elements before it wrote %q", i, run, got, want)
				}
				if mw.Err != mark || mw.Ctx != ctx {
					fail = fmt.Errorf("element %d of run %d sees error mark %v and context %v, the elements before it left %v and %v", i, run, mw.Err, mw.Ctx, mark, ctx)
				}
				switch plan[i] {
				case "mark":
					mark = fmt.Errorf("mark of element %d", i)
					mw.Err = mark
				case "clear":
					mark = nil
					mw.Err = nil
				case "cancel":
					cancel()
				case "ctx":
					ctx = context.WithValue(ctx, ckey{}, i)
					mw.Ctx = ctx
				case "nest":
					nested, inner = true, nil
					if err := chain.Execute(msg.NewBuilder(context.Background()).Build()); err != nil {
						fail = fmt.Errorf("another message on the same chain: nothing failed but the chain returned %v", err)
					}
					nested = false
					if len(inner) != n {
						fail = fmt.Errorf("another message on the same chain ran elements %v only", inner)
					}
					for k, e := range inner {
						if k != e {
							fail = fmt.Errorf("another message on the same chain ran elements in the order %v", inner)
						}
					}
				}
				ran = append(ran, i)
				mw.Res.Body = append(mw.Res.Body, fmt.Sprintf("%d,", i)...)
				if plan[i] == "err" {
					errs[i] = fmt.Errorf("run %d element %d fails", run, i)
					return errs[i]
				}
				return nil
			}
		}
		ch := &actor.DefaultChain{Handler: mk(len(sc.Before))}
		for i := range sc.Before {
			ch.Before = append(ch.Before, mk(i))
		}
		for i := range sc.After {
			ch.After = append(ch.After, mk(len(sc.Before)+1+i))
		}
		chain = ch
		l := hx.Labels{}
		for run = 0; run < sc.Runs; run++ {
			if run > 0 {
				plan = sc.Flip[run-1]
			}
			ran = nil
			var c context.Context
			c, cancel = context.WithCancel(context.Background())
			cur = msg.NewBuilder(c).Build()
			mark, ctx = nil, cur.Ctx
			err := ch.Execute(cur)
			for _, e := range ran {
				l.Add(plan[e] == "mark", "marked")
				l.Add(plan[e] == "cancel", "cancelled")
				l.Add(plan[e] == "nest", "nested")
				l.Add(plan[e] == "ctx", "context-replaced")
			}
			cancel()
			if fail != nil {
				return hx.Fail("%v", fail)
			}
			stop := n
			for i, p := range plan {
				if p == "err" {
					stop = i
					break
				}
			}
			var want []int
			for i := 0; i < n && i <= stop; i++ {
				want = append(want, i)
			}
			if fmt.Sprint(ran) != fmt.Sprint(want) {
				return hx.Fail("run %d: elements %v ran, expected %v (outcomes %q, %d before)", run, ran, want, plan, len(sc.Before))
			}
			l.Add(stop < n, "stopped")
			l.Add(stop == n, "complete")
			l.Add(stop < len(sc.Before), "stopped-before")
			l.Add(stop > len(sc.Before) && stop < n, "stopped-after")
			if stop == n && err != nil {
				return hx.Fail("run %d: nothing failed but the chain returned %v", run, err)
			}
			if stop < n && !errors.Is(err, errs[stop]) {
				return hx.Fail("run %d: element %d failed with %v but the chain returned %v", run, stop, errs[stop], err)
			}
		}
		return hx.Out{NonTrivial: n >= 3, Labels: l.List()}
	})
}

// ------------------------------------------------------------------ A09

// fop is one operation on futures.
type fop struct {
	At  int    `json:"at"`            // ms; operations of equal At race
	Do  string `json:"do"`            // complete, then, poll
	F   int    `json:"f"`             // future
	Nil bool   `json:"nil,omitempty"` // complete without a result
	New int    `json:"new,omitempty"`
	Dur int    `json:"dur,omitempty"` // ms the continuation takes
	Sub []fop  `json:"sub,omitempty"` // done by the continuation
}

type scnA09 struct {
	N   int   `json:"n"`
	Ops []fop `json:"ops"`
}

func genA09(rt *rapid.T) scnA09 {
	var sc scnA09
	sc.N = rapid.IntRange(1, 2).Draw(rt, "base")
	known := sc.N // futures that exist for certain at the present time
	next := sc.N
	at := 0
	var sub func(depth int) []fop
	sub = func(depth int) []fop {
		var r []fop
		for i := rapid.IntRange(0, 2).Draw(rt, "nsub"); i > 0 && depth > 0; i-- {
			o := fop{F: rapid.IntRange(0, known-1).Draw(rt, "sf"), Do: rapid.SampledFrom([]string{"complete", "then", "poll"}).Draw(rt, "sdo")}
			if o.Do == "then" {
				o.New = next
				next++
				o.Sub = sub(depth - 1)
			}
			o.Nil = o.Do == "complete" && rapid.IntRange(0, 5).Draw(rt, "snil") == 3
			r = append(r, o)
		}
		return r
	}
	for i := rapid.IntRange(2, 14).Draw(rt, "ops"); i > 0; i-- {
		if g := rapid.IntRange(0, 2).Draw(rt, "gap"); g > 0 {
			at += g
			// derived futures of top-level operations exist from the next instant on
			known = next
		}
		o := fop{At: at, F: rapid.IntRange(0, known-1).Draw(rt, "f"), Do: rapid.SampledFrom([]string{"complete", "then", "then", "poll"}).Draw(rt, "do")}
		if o.Do == "then" {
			o.New = next
			next++
			o.Dur = rapid.IntRange(0, 4).Draw(rt, "dur")
			if rapid.IntRange(0, 23).Draw(rt, "stuck") == 11 {
				o.Dur = 5000 // longer than the case: nothing else may wait for it
			}
			if rapid.IntRange(0, 2).Draw(rt, "hassub") == 0 {
				o.Sub = sub(2)
			}
			if rapid.IntRange(0, 31).Draw(rt, "crowd") == 17 { // many continuations on one future
				for k := rapid.IntRange(10, 120).Draw(rt, "many"); k > 0; k-- {
					sc.Ops = append(sc.Ops, fop{At: at, F: o.F, Do: "then", New: next})
					next++
				}
			}
		}
		o.Nil = o.Do == "complete" && rapid.IntRange(0, 5).Draw(rt, "nil") == 3
		sc.Ops = append(sc.Ops, o)
	}
	return sc
}

// fut is what is known about one future.
type fut struct {
	f        core.IFuture
	parent   int // -1: none
	compBeg  []int64
	compEnd  []int64
	compVal  []int
	contEnd  int64 // the continuation that feeds it has ended (0: not yet)
	contVal  int
	seen     []int   // results its continuations got
	seenAt   []int64 // when each of them began
	seenTrue int64   // earliest completion observed true, 0: none
	lastTrue int64
	falseEnd int64 // latest "not completed" observation
}

func TestA09(t *testing.T) {
	hx.Check(t, "A09", "a continuation was attached to a future and that future completed", genA09, func(t *testing.T, sc scnA09) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			var mu sync.Mutex
			var seq atomic.Int64
			var bad error
			futs := map[int]*fut{}
			runs := map[int]int{} // by new future
			vals := 0
			wraps := map[*msg.Wrapper]int{}
			note := func(f string, a ...any) {
				mu.Lock()
				if bad == nil {
					bad = fmt.Errorf(f, a...)
				}
				mu.Unlock()
			}
			for i := 0; i < sc.N; i++ {
				futs[i] = &fut{f: actor.NewFuture(), parent: -1}
			}
			var do func(o fop)
			do = func(o fop) {
				mu.Lock()
				fu := futs[o.F]
				mu.Unlock()
				if fu == nil {
					return // an attachment made by a continuation that has not run
				}
				switch o.Do {
				case "complete":
					w := &msg.Wrapper{}
					mu.Lock()
					vals++
					v := vals
					if o.Nil {
						w, v = nil, -1
					}
					wraps[w] = v
					beg := seq.Add(1)
					i := len(fu.compBeg)
					fu.compBeg = append(fu.compBeg, beg)
					fu.compEnd = append(fu.compEnd, 0)
					fu.compVal = append(fu.compVal, v)
					mu.Unlock()
					fu.f.Complete(w)
					mu.Lock()
					fu.compEnd[i] = seq.Add(1)
					mu.Unlock()
					if !fu.f.IsCompleted() {
						note("future %d is reported as not completed after Complete has returned", o.F)
					}
				case "poll":
					beg := seq.Add(1)
					done := fu.f.IsCompleted()
					end := seq.Add(1)
					mu.Lock()
					if done {
						if fu.seenTrue == 0 || end < fu.seenTrue {
							fu.seenTrue = end
						}
						// something must have completed it before
						ok := fu.contEnd != 0
						for _, b := range fu.compBeg {
							ok = ok || b < end
						}
						if !ok && bad == nil {
							bad = fmt.Errorf("future %d is reported as completed, but nothing has completed it", o.F)
						}
					} else {
						for _, c := range fu.compEnd {
							if c != 0 && c < beg && bad == nil {
								bad = fmt.Errorf("future %d is reported as not completed after it had been completed", o.F)
							}
						}
						if fu.seenTrue != 0 && fu.seenTrue < beg && bad == nil {
							bad = fmt.Errorf("future %d is reported as not completed after it had been reported completed", o.F)
						}
					}
					mu.Unlock()
				case "then":
					mu.Lock()
					nf := &fut{parent: o.F}
					mu.Unlock()
					x := fu.f.Then(func(mw *msg.Wrapper) {
						mu.Lock()
						runs[o.New]++
						v, known := wraps[mw]
						fu.seen = append(fu.seen, v)
						fu.seenAt = append(fu.seenAt, seq.Add(1))
						if !known && bad == nil {
							bad = fmt.Errorf("a continuation of future %d got a result nobody completed anything with", o.F)
						}
						mu.Unlock()
						if !fu.f.IsCompleted() {
							note("a continuation of future %d runs although it is reported as not completed", o.F)
						}
						time.Sleep(ms(o.Dur))
						for _, s := range o.Sub {
							do(s)
						}
						mu.Lock()
						nf.contVal = v
						nf.contEnd = seq.Add(1)
						mu.Unlock()
					})
					mu.Lock()
					nf.f = x
					futs[o.New] = nf
					mu.Unlock()
				}
			}
			start := time.Now()
			var wg sync.WaitGroup
			for _, o := range sc.Ops {
				if d := ms(o.At) - time.Since(start); d > 0 {
					wg.Wait()
					time.Sleep(d)
				}
				wg.Add(1)
				go func() { defer wg.Done(); do(o) }()
			}
			wg.Wait()
			time.Sleep(time.Second)
			// a last continuation on every future reveals its result
			var ids []int
			mu.Lock()
			for i := range futs {
				ids = append(ids, i)
			}
			mu.Unlock()
			final := map[int]int{}
			probes := map[int]int{}
			isDone := map[int]bool{}
			for _, i := range ids {
				isDone[i] = futs[i].f.IsCompleted()
				futs[i].f.Then(func(mw *msg.Wrapper) {
					mu.Lock()
					final[i] = wraps[mw]
					probes[i]++
					mu.Unlock()
				})
			}
			time.Sleep(time.Second)
			mu.Lock()
			defer mu.Unlock()
			l := hx.Labels{}
			nt := false
			if bad != nil {
				return hx.Fail("%v", bad)
			}
			for _, i := range ids {
				fu := futs[i]
				should := len(fu.compVal) > 0 || fu.contEnd != 0
				if should != isDone[i] {
					return hx.Fail("future %d: completed %d times directly and by its continuation: %v, but it is reported as completed: %v", i, len(fu.compVal), fu.contEnd != 0, isDone[i])
				}
				if want := map[bool]int{true: 1}[should]; probes[i] != want {
					return hx.Fail("future %d (completed: %v): a continuation attached at the end ran %d times", i, should, probes[i])
				}
				// continuations ran exactly once if the future completed
				if fu.parent >= 0 {
					p := isDone[fu.parent]
					if want := map[bool]int{true: 1}[p]; runs[i] != want {
						return hx.Fail("the continuation attached to future %d (completed: %v) ran %d times", fu.parent, p, runs[i])
					}
					nt = nt || p
				}
				if !should {
					l.Add(true, "pending")
					continue
				}
				v := final[i]
				for k, s := range fu.seen {
					if s != v {
						return hx.Fail("future %d: one continuation got result %d, another one (number %d) result %d", i, v, k, s)
					}
				}
				// the result is that of a completion not preceded by another one
				type cand struct {
					beg, end int64
					val      int
				}
				var cs []cand
				for k := range fu.compVal {
					cs = append(cs, cand{fu.compBeg[k], fu.compEnd[k], fu.compVal[k]})
				}
				if fu.contEnd != 0 {
					cs = append(cs, cand{fu.contEnd, 1 << 60, fu.contVal})
				}
				l.Add(len(cs) > 1, "repeated-completion")
				ok := false
				for _, c := range cs {
					if c.val != v {
						continue
					}
					first := true
					for _, d := range cs {
						if d.end < c.beg {
							first = false
						}
					}
					if len(fu.seenAt) > 0 && c.beg > fu.seenAt[0] {
						first = false
					}
					ok = ok || first
				}
				l.Add(v == -1, "no-result")
				if !ok {
					return hx.Fail("future %d has result %d; completions (begin, end, value): %v, continuations began at %v", i, v, cs, fu.seenAt)
				}
				l.Add(fu.parent >= 0, "derived-completed")
			}
			return hx.Out{NonTrivial: nt, Labels: l.List()}
		})
	})
}
