package act

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// rop is one reentrant call.
type rop struct {
	At     int    `json:"at"`   // ms
	From   int    `json:"from"` // caller
	To     int    `json:"to"`   // target actor, -1: nobody has that id
	Dur    int    `json:"dur"`  // ms the target takes
	Fault  string `json:"fault,omitempty"`
	Org    int    `json:"org,omitempty"`    // the message has an origin already: 1 its id, 2 its type too, 3 a made-up previous type only
	Whole  int    `json:"whole,omitempty"`  // the target answers with: 0 a body, 1 header fields too, 2 a response of its own, 3 no body, 4 not at all
	Pre    bool   `json:"pre,omitempty"`    // the message carries a response already
	Hold   int    `json:"hold,omitempty"`   // ms the calling handler goes on after the call
	Ctx    int    `json:"ctx,omitempty"`    // ms until the call's context is over; -1: it is over already
	Cancel bool   `json:"cancel,omitempty"` // by cancellation, not by deadline
	Own    bool   `json:"own,omitempty"`    // context derived from that of the message being handled
	Conts  int    `json:"conts,omitempty"`  // continuations attached at once
	Late   []int  `json:"late,omitempty"`   // and later (ms)
	Chain  int    `json:"chain,omitempty"`  // continuations chained to the first
	Nest   *rop   `json:"nest,omitempty"`   // issued by the first continuation
}

type rload struct {
	At  int `json:"at"`
	To  int `json:"to"`
	Dur int `json:"dur"`
}

type scnA08 struct {
	Actors int     `json:"actors"`
	Calls  []rop   `json:"calls"`
	Loads  []rload `json:"loads"`
	Quit   *rquit  `json:"quit,omitempty"` // instead of all that: an actor is shut down with reentrant calls about
}

// rquit is an actor that makes some calls, is kept busy, and is then shut down.
type rquit struct {
	At    int     `json:"at"`
	How   string  `json:"how"`
	Calls []rload `json:"calls"` // at, which target, and how long that takes
	Conts []int   `json:"conts"`
	Loads []rload `json:"loads"`
	Stay  bool    `json:"stay,omitempty"` // the target is busy for long when the calls come
}

func genQuit(rt *rapid.T) *rquit {
	q := &rquit{At: rapid.IntRange(0, 150).Draw(rt, "at"), How: rapid.SampledFrom([]string{"exit", "unreg"}).Draw(rt, "how"), Stay: rapid.IntRange(0, 7).Draw(rt, "stay") == 3}
	for i := rapid.IntRange(1, 6).Draw(rt, "calls"); i > 0; i-- {
		q.Calls = append(q.Calls, rload{rapid.IntRange(0, 100).Draw(rt, "cat"), rapid.IntRange(0, 3).Draw(rt, "cto"), rapid.IntRange(0, 60).Draw(rt, "cdur")})
		q.Conts = append(q.Conts, rapid.IntRange(1, 3).Draw(rt, "conts"))
	}
	for i := rapid.IntRange(0, 6).Draw(rt, "loads"); i > 0; i-- {
		q.Loads = append(q.Loads, rload{rapid.IntRange(0, 140).Draw(rt, "lat"), 0, rapid.SampledFrom([]int{0, 5, 20, 60, 150, 1500}).Draw(rt, "ldur")})
	}
	return q
}

func genRop(rt *rapid.T, actors, depth, from int) rop {
	o := rop{From: from, Dur: rapid.IntRange(0, 40).Draw(rt, "dur"), Conts: rapid.IntRange(1, 3).Draw(rt, "conts")}
	switch rapid.IntRange(0, 7).Draw(rt, "tgt") {
	case 0:
		o.To = -1
	case 1:
		o.To = o.From
	default:
		o.To = (o.From + rapid.IntRange(1, actors-1).Draw(rt, "to")) % actors
	}
	if rapid.IntRange(0, 7).Draw(rt, "long") == 0 {
		o.Dur = rapid.IntRange(3000, 7000).Draw(rt, "ldur")
	}
	if rapid.IntRange(0, 5).Draw(rt, "f") == 0 {
		o.Fault = rapid.SampledFrom([]string{"err", "panic"}).Draw(rt, "fault")
	}
	o.Whole = rapid.IntRange(0, 4).Draw(rt, "whole")
	o.Pre = rapid.IntRange(0, 3).Draw(rt, "pre") == 2
	if rapid.Bool().Draw(rt, "h") {
		o.Hold = rapid.IntRange(0, 30).Draw(rt, "hold")
	}
	if rapid.Bool().Draw(rt, "c") {
		o.Ctx = rapid.SampledFrom([]int{-1, 1, 5, 15, 30, 60, 200, 3500, 4900, 5100, 8000}).Draw(rt, "ctx")
		o.Cancel = rapid.Bool().Draw(rt, "cancel")
	}
	o.Own = rapid.Bool().Draw(rt, "own")
	o.Org = max(0, rapid.IntRange(-4, 3).Draw(rt, "org"))
	o.Late = rapid.SliceOfN(rapid.SampledFrom([]int{1, 10, 30, 100, 6000}), 0, 2).Draw(rt, "late")
	o.Chain = rapid.IntRange(0, 3).Draw(rt, "chain")
	if depth > 0 && rapid.IntRange(0, 2).Draw(rt, "nest") == 0 {
		n := genRop(rt, actors, depth-1, from)
		n.Hold = 0
		n.Own = false
		if n.To == n.From {
			n.To = -1
		}
		o.Nest = &n
	}
	return o
}

func genA08(rt *rapid.T) scnA08 {
	if rapid.IntRange(0, 4).Draw(rt, "quit") == 3 {
		return scnA08{Quit: genQuit(rt)}
	}
	sc := scnA08{Actors: rapid.IntRange(2, 4).Draw(rt, "actors")}
	at := 0
	for i := rapid.IntRange(1, 5).Draw(rt, "calls"); i > 0; i-- {
		at += rapid.IntRange(0, 40).Draw(rt, "gap")
		o := genRop(rt, sc.Actors, 2, rapid.IntRange(0, sc.Actors-1).Draw(rt, "from"))
		o.At = at
		sc.Calls = append(sc.Calls, o)
	}
	if rapid.IntRange(0, 63).Draw(rt, "crowded") == 37 { // one actor has many calls about
		for i := rapid.SampledFrom([]int{20, 60, 150}).Draw(rt, "crowd"); i > 0; i-- {
			o := rop{At: at + rapid.IntRange(0, 3).Draw(rt, "qat"), To: rapid.IntRange(1, sc.Actors-1).Draw(rt, "qto"), Dur: rapid.IntRange(0, 1).Draw(rt, "qdur"),
				Hold: rapid.IntRange(0, 3).Draw(rt, "qhold"), Whole: rapid.IntRange(0, 4).Draw(rt, "qwhole"), Conts: 1}
			sc.Calls = append(sc.Calls, o)
		}
	}
	for i := rapid.IntRange(0, 8).Draw(rt, "loads"); i > 0; i-- {
		sc.Loads = append(sc.Loads, rload{rapid.IntRange(0, 120).Draw(rt, "lat"), rapid.IntRange(0, sc.Actors-1).Draw(rt, "lto"), rapid.IntRange(0, 60).Draw(rt, "ld")})
	}
	return sc
}

// pre is the response the message of a call carries: body and token.
func (scnA08) pre(o *rop) [2]string {
	if o.Pre {
		return [2]string{"preset", "preset token"}
	}
	return [2]string{}
}

// rrun is one executed reentrant call.
type rrun struct {
	id       int
	op       *rop
	issued   time.Duration
	returned time.Duration
	tEnd     time.Duration // the target's handler ended (0: never)
	runs     int
	seen     string          // the response as the target finds it, if it is not the one the message carries
	org      string          // origin as the target sees it
	res      *router.Message // the answer as the target left it
	conts    []*rcont
}

type rcont struct {
	what string
	at   time.Duration
	n    int
	err  error
	body string
	res  *router.Message
}

type rload2 struct {
	op             *rload
	offered, start time.Duration
	n              int
}

func TestA08(t *testing.T) {
	hx.Check(t, "A08", "a reentrant call was pending while its actor ran something else, or it failed or ran out of time", genA08, func(t *testing.T, sc scnA08) hx.Out {
		if sc.Quit != nil {
			return quitA08(t, sc.Quit)
		}
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			var mu sync.Mutex
			var runs []*rrun
			loads := make([]*rload2, len(sc.Loads))
			type iv struct{ s, e time.Duration }
			busy := make([][]iv, sc.Actors)
			in := func(a int) time.Duration { return e.now() }
			out := func(a int, s time.Duration) {
				mu.Lock()
				busy[a] = append(busy[a], iv{s, e.now()})
				mu.Unlock()
			}
			var cancels []context.CancelFunc
			var issue func(ctx core.ActorContext, parent context.Context, o *rop)
			issue = func(ctx core.ActorContext, parent context.Context, o *rop) {
				mu.Lock()
				r := &rrun{id: len(runs), op: o}
				runs = append(runs, r)
				mu.Unlock()
				c := context.Background()
				if o.Own && parent != nil {
					c = parent
				}
				if o.Ctx != 0 {
					// half a millisecond keeps the end of the context apart from other events
					d := ms(o.Ctx) + 500*time.Microsecond
					var cancel context.CancelFunc
					if o.Ctx < 0 {
						c, cancel = context.WithCancel(c)
						cancel()
					} else if o.Cancel {
						c, cancel = context.WithCancel(c)
						time.AfterFunc(d, cancel)
					} else {
						c, cancel = context.WithTimeout(c, d)
					}
					mu.Lock()
					cancels = append(cancels, cancel)
					mu.Unlock()
				}
				tgt := "nobody"
				if o.To >= 0 {
					tgt = aid(o.To)
				}
				mw := msg.NewBuilder(c).WithReqBody([]byte(fmt.Sprintf("%d/%d/%s/%d", r.id, o.Dur, o.Fault, o.Whole))).Build()
				if o.Pre {
					mw.Res.Body, mw.Res.Header.Token = []byte("preset"), "preset token"
				}
				if o.Org > 0 && o.Org < 3 {
					mw.Req.Header.OrgActorID = "somebody"
				}
				if o.Org == 2 {
					mw.Req.Header.OrgActorType = "sometype"
				}
				if o.Org == 3 {
					mw.Req.Header.PrevActorType = "sometype"
				}
				cont := func(what string, then func()) func(*msg.Wrapper) {
					k := &rcont{what: what}
					mu.Lock()
					r.conts = append(r.conts, k)
					mu.Unlock()
					return func(w *msg.Wrapper) {
						mu.Lock()
						k.n++
						k.at = e.now()
						if w != nil {
							k.err = w.Err
							if w.Res != nil {
								k.body = string(w.Res.Body)
								k.res = w.Res
							}
						}
						mu.Unlock()
						if then != nil {
							then()
						}
					}
				}
				r.issued = e.now()
				f := ctx.ReenterCall(tgt, "t", "tgt", mw)
				r.returned = e.now()
				for i := 0; i < o.Conts; i++ {
					var then func()
					if i == 0 && o.Nest != nil {
						then = func() { issue(ctx, nil, o.Nest) }
					}
					x := f.Then(cont(fmt.Sprintf("continuation %d", i), then))
					if i == 0 {
						for k := 0; k < o.Chain; k++ {
							x = x.Then(cont(fmt.Sprintf("chained continuation %d", k), nil))
						}
					}
				}
				for _, l := range o.Late {
					time.AfterFunc(ms(l), func() { f.Then(cont(fmt.Sprintf("continuation attached %d ms later", l), nil)) })
				}
			}
			e.w = hb.New(hb.Spec{Ty: "t", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
				return hb.With(b, func(a *hb.Act) {
					i, _ := strconv.Atoi(a.Id[1:])
					one := func(f func(ctx core.ActorContext, mw *msg.Wrapper) error) func(core.ActorContext) core.IChain {
						return func(ctx core.ActorContext) core.IChain {
							return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
								s := in(i)
								defer out(i, s)
								return f(ctx, mw)
							}}
						}
					}
					hb.Must(a.OnEvent("go", one(func(ctx core.ActorContext, mw *msg.Wrapper) error {
						k, _ := strconv.Atoi(string(mw.Req.Body))
						issue(ctx, mw.Ctx, &sc.Calls[k])
						time.Sleep(ms(sc.Calls[k].Hold))
						return nil
					})))
					hb.Must(a.OnEvent("load", one(func(ctx core.ActorContext, mw *msg.Wrapper) error {
						k, _ := strconv.Atoi(string(mw.Req.Body))
						loads[k].start = e.now()
						loads[k].n++
						time.Sleep(ms(sc.Loads[k].Dur))
						return nil
					})))
					hb.Must(a.OnEvent("tgt", one(func(ctx core.ActorContext, mw *msg.Wrapper) error {
						p := strings.Split(string(mw.Req.Body), "/")
						id, _ := strconv.Atoi(p[0])
						d, _ := strconv.Atoi(p[1])
						mu.Lock()
						r := runs[id]
						r.runs++
						r.org = mw.Req.Header.OrgActorID + "/" + mw.Req.Header.OrgActorType + " via " + mw.Req.Header.PrevActorType
						mu.Unlock()
						time.Sleep(ms(d))
						if pre := sc.pre(r.op); string(mw.Res.Body) != pre[0] || mw.Res.Header.Token != pre[1] || string(mw.Req.Body) != strings.Join(p, "/") {
							mu.Lock()
							r.seen = fmt.Sprintf("%q with the token %q", mw.Res.Body, mw.Res.Header.Token)
							mu.Unlock()
						}
						if p[3] != "4" {
							mw.Res.Body = []byte("answer " + p[0])
						}
						switch p[3] {
						case "1":
							mw.Res.Header.Token, mw.Res.Header.Custom = "token "+p[0], []byte(`{"k":"`+p[0]+`"}`)
						case "2":
							mw.Res = &router.Message{Header: &router.Header{ID: "id " + p[0], Event: "done", Token: "token " + p[0], Custom: []byte(`{"k":"` + p[0] + `"}`)}, Body: mw.Res.Body}
						case "3":
							mw.Res = &router.Message{Header: &router.Header{Token: "token " + p[0]}}
						}
						mu.Lock()
						r.res = mw.Res
						r.tEnd = e.now()
						mu.Unlock()
						switch p[2] {
						case "err":
							return errors.New("target fails")
						case "panic":
							panic("target panics")
						}
						return nil
					})))
				})
			}})
			e.n = e.w.Node("n1", "127.0.0.1", 0)
			for i := 0; i < sc.Actors; i++ {
				_, err := e.n.Reg("t", aid(i))
				hb.Must(err)
			}
			e.t0 = time.Now()
			var bad error
			var wg sync.WaitGroup
			callEnd := make([]time.Duration, len(sc.Calls))
			callBeg := make([]time.Duration, len(sc.Calls))
			for k := range sc.Calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(ms(sc.Calls[k].At) + time.Duration(k*7+1)*time.Microsecond)
					callBeg[k] = e.now()
					err := e.n.Sys.Call(aid(sc.Calls[k].From), "t", "go", msg.NewBuilder(context.Background()).WithReqBody([]byte(strconv.Itoa(k))).Build())
					mu.Lock()
					callEnd[k] = e.now()
					if err != nil && bad == nil {
						bad = fmt.Errorf("the call that makes reentrant call %d failed: %v", k, err)
					}
					mu.Unlock()
				}()
			}
			for k := range sc.Loads {
				wg.Add(1)
				loads[k] = &rload2{op: &sc.Loads[k]}
				go func() {
					defer wg.Done()
					time.Sleep(ms(sc.Loads[k].At) + time.Duration(200+k*7)*time.Microsecond)
					loads[k].offered = e.now()
					err := e.n.Sys.Send(aid(sc.Loads[k].To), "t", "load", msg.NewBuilder(context.Background()).WithReqBody([]byte(strconv.Itoa(k))).Build())
					hb.Must(err)
				}()
			}
			wg.Wait()
			time.Sleep(3 * time.Minute)
			mu.Lock()
			defer mu.Unlock()
			for _, c := range cancels {
				c()
			}
			l := hx.Labels{}
			nt := false
			fail := func(f string, a ...any) { // keep the first
				if bad == nil {
					bad = fmt.Errorf(f, a...)
				}
			}
			for k, ld := range loads {
				if ld.n != 1 {
					fail("load %d ran %d times", k, ld.n)
				}
				ok := ld.start == ld.offered
				for _, b := range busy[ld.op.To] {
					ok = ok || b.e == ld.start
				}
				if !ok {
					fail("load %d was offered to actor %d at %v and started at %v, although nothing ended then", k, ld.op.To, ld.offered, ld.start)
				}
			}
			for _, r := range runs {
				o := r.op
				if r.returned != r.issued {
					fail("reentrant call %d took %v to return", r.id, r.returned-r.issued)
				}
				// when and how the call ends
				tCall, wantErr, why := r.issued+5*time.Second, true, "five seconds over"
				switch {
				case o.To == -1 || o.To == o.From && o.Org%3 == 0: // an actor can't call itself, save on behalf of another
					tCall, why = r.issued, "target out of reach"
					if r.runs != 0 {
						fail("reentrant call %d had no target but a handler ran", r.id)
					}
				case r.runs > 1:
					fail("reentrant call %d ran %d handlers", r.id, r.runs)
				case r.tEnd != 0 && r.tEnd < tCall:
					tCall, wantErr, why = r.tEnd, false, "target finished"
				}
				tie := r.tEnd == r.issued+5*time.Second
				early := false
				if o.Ctx != 0 {
					tc := r.issued + ms(o.Ctx) + 500*time.Microsecond
					if o.Ctx < 0 {
						tc = r.issued
					}
					if tc < tCall || tc == tCall && wantErr {
						tCall, wantErr, why, early = tc, true, "context over", true
					}
					tie = tie || tc == tCall
				}
				org := []string{aid(o.From) + "/t via t", "somebody/ via t", "somebody/sometype via t", aid(o.From) + "/t via t"}[o.Org]
				if r.runs == 1 && r.org != org {
					fail("reentrant call %d: the target sees it come from %q, expected %q", r.id, r.org, org)
				}
				if r.seen != "" {
					fail("reentrant call %d: the target finds the response %s in the message, expected %q", r.id, r.seen, sc.pre(o))
				}
				held := false
				for _, b := range busy[o.From] {
					held = held || b.s <= tCall && tCall < b.e
				}
				for _, k := range r.conts {
					if k.n != 1 {
						fail("reentrant call %d (%s at %v): its %s ran %d times", r.id, why, tCall, k.what, k.n)
						continue
					}
					if k.at < tCall {
						fail("reentrant call %d: its %s ran at %v, before the call was over at %v (%s)", r.id, k.what, k.at, tCall, why)
					}
					if strings.Contains(k.what, "later") {
						continue
					}
					ok := k.at == tCall
					for _, b := range busy[o.From] {
						ok = ok || held && b.e == k.at
					}
					if !ok {
						fail("reentrant call %d was over at %v (%s) but its %s ran at %v (actor busy: %v)", r.id, tCall, why, k.what, k.at, held)
					}
				}
				for _, k := range r.conts {
					if k.n != 1 {
						continue
					}
					if (k.err != nil) != wantErr && !tie && o.Fault == "" {
						fail("reentrant call %d: %s, but its %s got error %v", r.id, why, k.what, k.err)
					}
					if wantErr && k.err == nil && !tie {
						fail("reentrant call %d: %s, but its %s got no error", r.id, why, k.what)
					}
					want := fmt.Sprintf("answer %d", r.id)
					if o.Whole == 3 {
						want = ""
					}
					if o.Whole == 4 {
						want = sc.pre(o)[0]
					}
					if k.err == nil && o.Fault == "" && k.body != want {
						fail("reentrant call %d: its %s got %q", r.id, k.what, k.body)
					}
					if k.err == nil && o.Fault == "" && r.res != nil && fmt.Sprint(k.res) != fmt.Sprint(r.res) {
						fail("reentrant call %d: its %s got the response %v, the target answered %v", r.id, k.what, k.res, r.res)
					}
					if (k.err == nil) != (r.conts[0].err == nil) {
						fail("reentrant call %d: continuations disagree: %v and %v", r.id, k.err, r.conts[0].err)
					}
				}
				l.Add(early, "context-over")
				l.Add(!wantErr, "answered")
				l.Add(why == "five seconds over", "timeout")
				l.Add(why == "target out of reach", "unreachable")
				l.Add(held, "actor-busy-at-completion")
				l.Add(o.Nest != nil, "nested")
				pend := false
				for _, b := range busy[o.From] {
					pend = pend || b.s > r.issued && b.s < tCall
				}
				l.Add(pend, "ran-while-pending")
				nt = nt || pend || wantErr
			}
			// the handlers that made the calls were not held up by them
			for k := range sc.Calls {
				ok := callEnd[k] == callBeg[k]+5*time.Second // its actor was occupied for too long
				for _, b := range busy[sc.Calls[k].From] {
					ok = ok || b.e == callEnd[k]
				}
				if !ok {
					fail("the call to the handler that makes reentrant call %d returned at %v, when no handler ended", k, callEnd[k])
				}
			}
			mu.Unlock()
			e.w.Close()
			mu.Lock()
			return hx.Out{Err: bad, NonTrivial: nt, Labels: l.List()}
		})
	})
}

// qcall is one call of an actor that is shut down.
type qcall struct {
	answered time.Duration // the target's handler ended
	conts    []time.Duration
	bodies   []string
}

func quitA08(t *testing.T, q *rquit) hx.Out {
	return hx.Bubble(t, func() hx.Out {
		e := &eng{}
		var mu sync.Mutex
		var calls = make([]*qcall, len(q.Calls))
		type iv struct{ s, e time.Duration }
		var busy []iv
		var began, returned time.Duration
		var viol error
		chain := func(f func(ctx core.ActorContext, mw *msg.Wrapper)) func(core.ActorContext) core.IChain {
			return func(ctx core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
					f(ctx, mw)
					return nil
				}}
			}
		}
		ran := func(what string) {
			if returned > 0 && viol == nil {
				viol = fmt.Errorf("%s ran at %v, after the shutdown had returned at %v", what, e.now(), returned)
			}
		}
		e.w = hb.New(hb.Spec{Ty: "t", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) {
				hb.Must(a.OnEvent("go", chain(func(ctx core.ActorContext, mw *msg.Wrapper) {
					k, _ := strconv.Atoi(string(mw.Req.Body))
					mu.Lock()
					c := &qcall{}
					calls[k] = c
					ran("a handler")
					mu.Unlock()
					f := ctx.ReenterCall(aid(1+q.Calls[k].To), "t", "tgt", msg.NewBuilder(context.Background()).WithReqBody([]byte(strconv.Itoa(k))).Build())
					for i := 0; i < q.Conts[k]; i++ {
						f.Then(func(w *msg.Wrapper) {
							mu.Lock()
							defer mu.Unlock()
							ran(fmt.Sprintf("a continuation of reentrant call %d", k))
							c.conts = append(c.conts, e.now())
							c.bodies = append(c.bodies, fmt.Sprintf("%s %v", w.Res.Body, w.Err))
						})
					}
				})))
				hb.Must(a.OnEvent("load", chain(func(ctx core.ActorContext, mw *msg.Wrapper) {
					k, _ := strconv.Atoi(string(mw.Req.Body))
					s := e.now()
					time.Sleep(ms(q.Loads[k].Dur))
					mu.Lock()
					ran("a handler")
					busy = append(busy, iv{s, e.now()})
					mu.Unlock()
				})))
				hb.Must(a.OnEvent("tgt", chain(func(ctx core.ActorContext, mw *msg.Wrapper) {
					k, _ := strconv.Atoi(string(mw.Req.Body))
					time.Sleep(ms(q.Calls[k].Dur) + time.Duration(300+k)*time.Microsecond)
					mw.Res.Body = []byte("answer " + string(mw.Req.Body))
					mu.Lock()
					calls[k].answered = e.now()
					mu.Unlock()
				})))
				hb.Must(a.OnEvent("stay", chain(func(ctx core.ActorContext, mw *msg.Wrapper) { time.Sleep(200 * time.Millisecond) })))
			})
		}})
		e.n = e.w.Node("n1", "127.0.0.1", 0)
		for i := 0; i < 5; i++ {
			_, err := e.n.Reg("t", aid(i))
			hb.Must(err)
		}
		e.t0 = time.Now()
		if q.Stay {
			hb.Must(e.n.Sys.Send(aid(1), "t", "stay", msg.NewBuilder(context.Background()).Build()))
		}
		var wg sync.WaitGroup
		send := func(ev string, k, at, off int) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(at) + time.Duration(off+k*7)*time.Microsecond)
				e.n.Sys.Send(aid(0), "t", ev, msg.NewBuilder(context.Background()).WithReqBody([]byte(strconv.Itoa(k))).Build())
			}()
		}
		for k, c := range q.Calls {
			send("go", k, c.At, 1)
		}
		for k, c := range q.Loads {
			send("load", k, c.At, 100)
		}
		a, err := e.n.Sys.FindActor(context.Background(), aid(0))
		hb.Must(err)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(q.At) + 900*time.Microsecond)
			began = e.now()
			if q.How == "unreg" {
				hb.Must(e.n.Sys.Unregister(aid(0), "t"))
			} else {
				a.(interface{ Exit() }).Exit()
			}
			mu.Lock()
			returned = e.now()
			mu.Unlock()
		}()
		wg.Wait()
		time.Sleep(time.Minute)
		mu.Lock()
		defer mu.Unlock()
		l := hx.Labels{}
		l.Add(true, "shut-down-with-calls-about")
		nt := false
		work := time.Duration(0) // what is left to do when the shutdown begins
		for _, b := range busy {
			if b.e > began {
				work += b.e - max(b.s, began)
			}
		}
		for k, c := range calls {
			if c == nil {
				continue // the message that asks for it was refused
			}
			had := c.answered > 0 && c.answered < began && work < 9*time.Second
			l.Add(had, "answer-there-before-shutdown")
			waits := false
			for _, b := range busy {
				waits = waits || had && b.s < c.answered && b.e > began
			}
			l.Add(waits, "answer-waits-when-shutdown-begins")
			nt = nt || waits
			if len(c.conts) > q.Conts[k] || had && len(c.conts) != q.Conts[k] {
				viol = fmt.Errorf("reentrant call %d was answered at %v and the shutdown of its actor began at %v (returned at %v, %v of work left): %d of its %d continuations ran", k, c.answered, began, returned, work, len(c.conts), q.Conts[k])
			}
			if had {
				for i, b := range c.bodies {
					if b != fmt.Sprintf("answer %d <nil>", k) {
						viol = fmt.Errorf("reentrant call %d was answered before the shutdown of its actor began, but continuation %d got %q", k, i, b)
					}
				}
			}
		}
		mu.Unlock()
		e.w.Close()
		mu.Lock()
		return hx.Out{Err: viol, NonTrivial: nt, Labels: l.List()}
	})
}
