package act

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ A11

type cstep struct {
	Do  string `json:"do"` // new opt type pick reg round
	B   int    `json:"b"`  // builder
	K   string `json:"k,omitempty"`
	V   string `json:"v,omitempty"`
	Ctx map[string]string
	Rnd []cact `json:"rnd,omitempty"` // round: done by several actors at the same time
}

// cact is what one actor does in one message.
type cact struct {
	Actor int         `json:"actor"` // index among the registered ones
	Sets  [][2]string `json:"sets,omitempty"`
	Dur   int         `json:"dur,omitempty"`
	Call  bool        `json:"call,omitempty"` // ask another actor who is calling
}

type scnA11 struct {
	Opts  []map[string]string `json:"opts"` // per type, null: no map
	Steps []cstep             `json:"steps"`
}

func genA11(rt *rapid.T) scnA11 {
	var sc scnA11
	key := rapid.SampledFrom([]string{"k0", "k1", "k2", "k3"})
	val := rapid.SampledFrom([]string{"", "x", "y", "zz", "1"})
	vals := rapid.SampledFrom([]string{"", "x", "y", "zz", "1", "<nil>", "<slice>", "<map>"}) // see anyval
	for i := rapid.IntRange(1, 2).Draw(rt, "types"); i > 0; i-- {
		var m map[string]string
		if rapid.IntRange(0, 2).Draw(rt, "nil") > 0 {
			m = rapid.MapOfN(key, val, 0, 3).Draw(rt, "tpl")
		}
		sc.Opts = append(sc.Opts, m)
	}
	nb, nreg := 0, 0
	var open []int // builders not yet registered
	for i := rapid.IntRange(3, 30).Draw(rt, "steps"); i > 0; i-- {
		switch k := rapid.IntRange(0, 9).Draw(rt, "kind"); {
		case k < 2 || len(open) == 0 && nreg == 0:
			sc.Steps = append(sc.Steps, cstep{Do: "new", B: nb, K: fmt.Sprintf("t%d", rapid.IntRange(0, len(sc.Opts)-1).Draw(rt, "ty"))})
			open = append(open, nb)
			nb++
		case k < 7 && len(open) > 0:
			s := cstep{B: rapid.SampledFrom(open).Draw(rt, "b")}
			switch rapid.IntRange(0, 6).Draw(rt, "bk") {
			case 6:
				s.Do, s.V = "pick", rapid.SampledFrom([]string{"", "no node"}).Draw(rt, "perr")
			case 0, 1, 2:
				s.Do, s.K, s.V = "opt", key.Draw(rt, "k"), val.Draw(rt, "v")
			case 3:
				s.Do, s.V = "type", rapid.SampledFrom([]string{"t0", "u", "v", "u", "v", ""}).Draw(rt, "nt")
			default:
				s.Do = "reg"
				s.Ctx = rapid.MapOfN(key, vals, 0, 3).Draw(rt, "rctx")
				for j, o := range open {
					if o == s.B {
						open = append(append([]int{}, open[:j]...), open[j+1:]...)
						break
					}
				}
				nreg++
			}
			sc.Steps = append(sc.Steps, s)
		case nreg > 0:
			s := cstep{Do: "round"}
			for j := rapid.IntRange(1, 5).Draw(rt, "rn"); j > 0; j-- {
				c := cact{Actor: rapid.IntRange(0, nreg-1).Draw(rt, "ra"), Dur: rapid.IntRange(0, 5).Draw(rt, "rd"), Call: nreg > 1 && rapid.Bool().Draw(rt, "rc")}
				for m := rapid.IntRange(0, 3).Draw(rt, "sets"); m > 0; m-- {
					c.Sets = append(c.Sets, [2]string{key.Draw(rt, "sk"), vals.Draw(rt, "sv")})
				}
				s.Rnd = append(s.Rnd, c)
			}
			sc.Steps = append(sc.Steps, s)
		}
	}
	return sc
}

type ctxKey string

// anyval is a value for a context.
func anyval(v string) any {
	switch v {
	case "<nil>":
		return nil
	case "<slice>":
		return []int{1, 2}
	case "<map>":
		return map[string][]string{"a": {"b"}}
	}
	return v
}

type breport struct {
	ID, Ty string
	Sys    bool
	Vals   map[string]any
}

func TestA11(t *testing.T) {
	keys := []string{"k0", "k1", "k2", "k3"}
	hx.Check(t, "A11", "two builders or two actors existed, and options or values were written", genA11, func(t *testing.T, sc scnA11) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			var mu sync.Mutex
			var bad error
			note := func(f string, a ...any) {
				mu.Lock()
				if bad == nil {
					bad = fmt.Errorf(f, a...)
				}
				mu.Unlock()
			}
			type mact struct {
				id, ty string
				vals   map[string]any
			}
			models := map[string]*mact{} // by id
			var w *hb.World
			var n *hb.Nod
			check := func(a *hb.Act, ctx core.ActorContext, when string) {
				mu.Lock()
				m := models[a.Id]
				mu.Unlock()
				if ctx.ID() != m.id || ctx.Type() != m.ty || ctx.System() != n.Sys {
					note("actor %s (%s) %s: its context reports id %q type %q, its own system: %v", m.id, m.ty, when, ctx.ID(), ctx.Type(), ctx.System() == n.Sys)
				}
				for _, k := range keys {
					mu.Lock()
					want := m.vals[k]
					mu.Unlock()
					if got := ctx.GetValue(ctxKey(k)); !reflect.DeepEqual(got, want) {
						note("actor %s %s: value of %s is %v, expected %v", m.id, when, k, got, want)
					}
				}
			}
			mk := func(b core.IActorBuilder) core.IActor {
				return hb.With(b, func(a *hb.Act) {
					hb.Must(a.OnEvent("do", func(ctx core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
							var c cact
							hb.Must(json.Unmarshal(mw.Req.Body, &c))
							ended := false
							defer func() {
								if !ended {
									note("a handler of actor %s broke off", a.Id)
								}
							}()
							check(a, ctx, "at the start of a handler")
							for _, s := range c.Sets {
								ctx.WithValue(ctxKey(s[0]), anyval(s[1]))
								mu.Lock()
								models[a.Id].vals[s[0]] = anyval(s[1])
								mu.Unlock()
							}
							time.Sleep(ms(c.Dur))
							check(a, ctx, "in a handler after other actors may have run")
							if c.Call {
								mu.Lock()
								var peer string
								for id := range models {
									if id != a.Id {
										peer = id
									}
								}
								mu.Unlock()
								// a call tree of its own would wait; this one does not
								hb.Must(ctx.Call(peer, "any", "who", msg.NewBuilder(mw.Ctx).WithReqBody([]byte(a.Id+" "+models[a.Id].ty)).Build()))
							}
							ended = true
							return nil
						}}
					}))
					hb.Must(a.OnEvent("who", func(ctx core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
							h := mw.Req.Header
							if got := h.OrgActorID + " " + h.OrgActorType; got != string(mw.Req.Body) || h.PrevActorType != h.OrgActorType {
								note("a call made by actor %q says it comes from %q, previous type %q", mw.Req.Body, got, h.PrevActorType)
							}
							check(a, ctx, "while called by another actor")
							return nil
						}}
					}))
				})
			}
			var specs []hb.Spec
			for i, o := range sc.Opts {
				s := hb.Spec{Ty: fmt.Sprintf("t%d", i), Weight: i + 1, New: mk}
				if o != nil {
					s.Opts = map[string]string{}
					for k, v := range o {
						s.Opts[k] = v
					}
				}
				specs = append(specs, s)
			}
			w = hb.New(specs...)
			for _, ty := range []string{"u", "v"} {
				w.Fac.Add(hb.Spec{Ty: ty, Weight: 1, New: mk})
			}
			n = w.Node("n1", "127.0.0.1", 0)
			type mb struct {
				b      core.IActorBuilder
				id, ty string
				w      int
				opts   map[string]string
			}
			var bs []*mb
			var order []string
			l := hx.Labels{}
			builders := func(when string) {
				for i, b := range bs {
					if b.b.GetID() != b.id || b.b.GetType() != b.ty || b.b.GetWeight() != b.w {
						note("%s: builder %d has id %q type %q weight %d, expected %q %q %d", when, i, b.b.GetID(), b.b.GetType(), b.b.GetWeight(), b.id, b.ty, b.w)
					}
					got := map[string]string{}
					for k, v := range b.b.GetOptions() {
						got[k] = v
					}
					if !reflect.DeepEqual(got, b.opts) {
						note("%s: builder %d has options %v, expected %v", when, i, got, b.opts)
					}
					for _, k := range keys {
						if b.b.GetOpt(k) != b.opts[k] {
							note("%s: builder %d: option %s is %q, expected %q", when, i, k, b.b.GetOpt(k), b.opts[k])
						}
					}
				}
				for i, o := range sc.Opts {
					ac := w.Fac.Get(fmt.Sprintf("t%d", i))
					got, want := fmt.Sprint(ac.Options), fmt.Sprint(o)
					if got != want || ac.ID != "" || ac.Name != fmt.Sprintf("t%d", i) {
						note("%s: the template of type t%d has options %v id %q name %q, it was made with %v", when, i, got, ac.ID, ac.Name, want)
					}
				}
			}
			writes := false
			for si, s := range sc.Steps {
				when := fmt.Sprintf("after step %d (%s of builder %d)", si, s.Do, s.B)
				switch s.Do {
				case "new":
					m := &mb{b: n.Sys.Loader(s.K), ty: s.K, w: w.Fac.Get(s.K).Weight, opts: map[string]string{}}
					for i, o := range sc.Opts {
						if fmt.Sprintf("t%d", i) == s.K {
							for k, v := range o {
								m.opts[k] = v
							}
						}
					}
					bs = append(bs, m)
				case "opt":
					bs[s.B].b.WithOpt(s.K, s.V)
					bs[s.B].opts[s.K] = s.V
					writes = true
					l.Add(true, "option")
				case "type":
					bs[s.B].b.WithType(s.V)
					bs[s.B].ty = s.V
				case "pick": // the loader is asked once, for this builder and with this context, and its answer handed back
					m := bs[s.B]
					c := context.WithValue(context.Background(), ctxKey("pick"), si)
					var perr error
					if s.V != "" {
						perr = errors.New(s.V)
					}
					n := 0
					w.Pick = func(ctx context.Context, b core.IActorBuilder) error {
						n++
						if n > 1 || b != m.b || ctx.Value(ctxKey("pick")) != si {
							note("%s: the loader was asked %d times, for this builder: %v, with its context: %v", when, n, b == m.b, ctx.Value(ctxKey("pick")) == si)
						}
						return perr
					}
					if err := m.b.Picker(c); err != perr || n != 1 {
						note("%s: asked the loader %d times and returned %v, it answered %v", when, n, err, perr)
					}
					l.Add(true, "picked")
				case "reg":
					m := bs[s.B]
					m.id = fmt.Sprintf("a%d", s.B)
					m.b.WithID(m.id)
					if m.ty == "" { // no actor is without a type
						if _, err := m.b.Register(context.Background()); err == nil {
							note("%s: an actor without a type was registered", when)
						}
						m.ty = "u"
						m.b.WithType(m.ty)
					}
					c := context.Background()
					ma := &mact{id: m.id, ty: m.ty, vals: map[string]any{}}
					for k, v := range s.Ctx {
						c = context.WithValue(c, ctxKey(k), anyval(v))
						ma.vals[k] = anyval(v)
						l.Add(true, "inherited-value")
					}
					mu.Lock()
					models[m.id] = ma
					mu.Unlock()
					if _, err := m.b.Register(c); err != nil {
						note("registering %s of type %s: %v", m.id, m.ty, err)
					}
					order = append(order, m.id)
				case "round":
					var wg sync.WaitGroup
					for _, c := range s.Rnd {
						wg.Add(1)
						writes = writes || len(c.Sets) > 0
						l.Add(len(c.Sets) > 0, "value-set")
						l.Add(c.Call, "asked-who")
						go func() {
							defer wg.Done()
							b, _ := json.Marshal(c)
							if err := n.Sys.Call(order[c.Actor], "any", "do", msg.NewBuilder(context.Background()).WithReqBody(b).Build()); err != nil {
								note("%s: %v", when, err)
							}
						}()
					}
					wg.Wait()
				}
				builders(when)
				if bad != nil {
					break
				}
			}
			w.Close()
			return hx.Out{Err: bad, NonTrivial: writes && len(bs) > 1, Labels: l.List()}
		})
	})
}
