package ps

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	hb.Store()
	os.Exit(m.Run())
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// ------------------------------------------------------------------ L03

// lsub is one life of a subscribing actor.
type lsub struct {
	Topic int  `json:"topic"`
	Node  int  `json:"node"`
	At    int  `json:"at"`             // ms
	Down  int  `json:"down,omitempty"` // ms; its process ends then (0: never)
	Late  bool `json:"late,omitempty"` // subscribes in a handler, not while it starts
	Slow  int  `json:"slow,omitempty"` // ms its chain takes to build
	Extra int  `json:"extra,omitempty"`
	Dur   int  `json:"dur,omitempty"` // ms its handler takes
	Own   bool `json:"own,omitempty"` // the actor handles the channel's event already when it subscribes
}

type lpub struct {
	At    int    `json:"at"`
	Node  int    `json:"node"`
	Topic int    `json:"topic"`
	Ev    string `json:"ev"` // chan, other, unknown, none
	Body  []byte `json:"body"`
	N     int    `json:"n,omitempty"`
	Act   bool   `json:"act,omitempty"` // published by an actor's handler
	Raw   bool   `json:"raw,omitempty"` // the body as it is, without a mark: it may be empty
}

type scnL03 struct {
	Nodes  int      `json:"nodes"`
	Topics []string `json:"topics"`
	Subs   []lsub   `json:"subs"`
	Pubs   []lpub   `json:"pubs"`
}

func genL03(rt *rapid.T) scnL03 {
	sc := scnL03{Nodes: rapid.IntRange(1, 3).Draw(rt, "nodes")}
	names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"t", "t1", "news", "a b", "t:1", "日本", "T", strings.Repeat("x", 60)}), 1, 4, rapid.ID[string]).Draw(rt, "topics")
	sc.Topics = names
	for i := range names {
		at := 0
		shared := rapid.IntRange(0, 2).Draw(rt, "shared") == 0 // several actors on the channel, each message is for one of them
		for n := rapid.IntRange(0, 3).Draw(rt, "lives"); n > 0; n-- {
			at += rapid.IntRange(0, 80).Draw(rt, "sat")
			s := lsub{Topic: i, Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "snode"), At: at, Late: rapid.Bool().Draw(rt, "late"), Dur: rapid.IntRange(0, 8).Draw(rt, "dur")}
			if rapid.IntRange(0, 2).Draw(rt, "sl") == 0 {
				s.Slow = rapid.IntRange(1, 40).Draw(rt, "slow")
			}
			if rapid.IntRange(0, 31).Draw(rt, "ld") == 17 && n == 1 {
				s.Dur = rapid.IntRange(500, 3000).Draw(rt, "longdur")
			}
			s.Own = rapid.IntRange(0, 4).Draw(rt, "own") == 3
			s.Extra = rapid.SampledFrom([]int{0, 0, 3, 30}).Draw(rt, "extra")
			if n > 1 && !shared {
				// it is gone again before the next life begins
				s.Down = at + s.Slow + 30 + rapid.IntRange(1, 100).Draw(rt, "up")
				at = s.Down + 400
			}
			sc.Subs = append(sc.Subs, s)
		}
	}
	at, raw := 0, map[int]bool{}
	for i := rapid.IntRange(1, 25).Draw(rt, "pubs"); i > 0; i-- {
		at += rapid.SampledFrom([]int{0, 0, 1, 5, 20, 60, 150}).Draw(rt, "gap")
		p := lpub{At: at, Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "pnode"), Topic: rapid.IntRange(0, len(names)-1).Draw(rt, "ptopic"),
			Ev:   rapid.SampledFrom([]string{"chan", "chan", "chan", "chan", "other", "unknown", "none"}).Draw(rt, "ev"),
			Body: rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "body"), Act: rapid.IntRange(0, 3).Draw(rt, "act") == 0}
		if rapid.IntRange(0, 5).Draw(rt, "b") == 0 {
			p.N = rapid.IntRange(2, 30).Draw(rt, "n")
			if rapid.IntRange(0, 2).Draw(rt, "bigs") == 0 {
				p.Body = bytes.Repeat([]byte{byte(i)}, rapid.IntRange(500, 5000).Draw(rt, "bigsize"))
			}
		}
		if !raw[p.Topic] && p.N < 2 && !bytes.Contains(p.Body, []byte("|")) && rapid.IntRange(0, 3).Draw(rt, "raw") == 2 {
			p.Raw, raw[p.Topic] = true, true // one in a topic, there it can be told from the others
		}
		switch rapid.IntRange(0, 255).Draw(rt, "rare") {
		case 137:
			p.Raw = false
			p.N = rapid.IntRange(100, 1500).Draw(rt, "many")
		case 138, 139:
			p.Body = bytes.Repeat([]byte{byte(i)}, rapid.IntRange(1000, 100000).Draw(rt, "size"))
		}
		sc.Pubs = append(sc.Pubs, p)
	}
	return sc
}

type got struct {
	life  int
	chain string
	ev    string
	body  string
	at    time.Duration
}

type sent struct {
	p    *lpub
	body string
	beg  time.Duration
	end  time.Duration
	err  error
}

func TestL03(t *testing.T) {
	hx.Check(t, "L03", "at least one message was published to a subscribed topic and two publications happened", genL03, func(t *testing.T, sc scnL03) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			var mu sync.Mutex
			var recv []got
			var pubs []*sent
			var t0 time.Time
			type life struct {
				beg, end time.Duration // of the subscription
				err      error
			}
			lives := make([]*life, len(sc.Subs))
			now := func() time.Duration { return time.Since(t0) }
			chname := func(topic int) string { return fmt.Sprintf("ch%d", topic) }
			handler := func(k int, chain string) func(core.ActorContext) core.IChain {
				return func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
						mu.Lock()
						recv = append(recv, got{k, chain, mw.Req.Header.Event, string(mw.Req.Body), now()})
						mu.Unlock()
						time.Sleep(ms(sc.Subs[k].Dur))
						return nil
					}}
				}
			}
			var w *hb.World
			subscribe := func(k int, a *hb.Act) {
				s := sc.Subs[k]
				l := &life{beg: now()}
				nm := sc.Topics[s.Topic]
				if s.Own {
					hb.Must(a.OnEvent(chname(s.Topic), handler(k, "chan")))
				}
				l.err = a.Sub(nm, chname(s.Topic), func(ctx core.ActorContext) core.IChain {
					time.Sleep(ms(s.Slow))
					return handler(k, "chan")(ctx)
				})
				l.end = now()
				mu.Lock()
				lives[k] = l
				mu.Unlock()
			}
			w = hb.New(hb.Spec{Ty: "sub", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
				return hb.With(b, func(a *hb.Act) {
					var k int
					fmt.Sscanf(a.Id, "s%d", &k)
					hb.Must(a.OnEvent("other", handler(k, "other")))
					if sc.Subs[k].Late {
						hb.Must(a.OnEvent("subscribe", func(core.ActorContext) core.IChain {
							return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { subscribe(k, a); return nil }}
						}))
					} else {
						subscribe(k, a)
					}
					for i := 0; i < sc.Subs[k].Extra; i++ {
						hb.Must(a.OnEvent(fmt.Sprintf("extra%d", i), handler(k, "extra")))
					}
				})
			}}, hb.Spec{Ty: "pub", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
				return hb.With(b, func(a *hb.Act) {
					hb.Must(a.OnEvent("pub", func(ctx core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
							return nil
						}}
					}))
				})
			}})
			var ns []*hb.Nod
			var ctxs []core.ActorContext
			for i := 0; i < sc.Nodes; i++ {
				n := w.Node(fmt.Sprintf("n%d", i), fmt.Sprintf("10.0.0.%d", i+1), 0)
				ns = append(ns, n)
				a, err := n.Reg("pub", fmt.Sprintf("p%d", i))
				hb.Must(err)
				ctxs = append(ctxs, a.Context())
			}
			t0 = time.Now()
			var wg sync.WaitGroup
			var infra error
			for k := range sc.Subs {
				s := sc.Subs[k]
				id := fmt.Sprintf("s%d", k)
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(ms(s.At) + time.Duration(k+1)*time.Microsecond)
					_, err := ns[s.Node].Reg("sub", id)
					if err == nil && s.Late {
						err = ns[s.Node].Sys.Call(id, "sub", "subscribe", msg.NewBuilder(context.Background()).Build())
					}
					if err != nil {
						mu.Lock()
						infra = fmt.Errorf("cannot register a subscriber: %v", err)
						mu.Unlock()
					}
				}()
				if s.Down > 0 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(ms(s.Down) + time.Duration(k+1)*time.Microsecond)
						w.Hook.Kill(sc.Topics[s.Topic], chname(s.Topic))
						time.Sleep(300 * time.Millisecond)
						if err := ns[s.Node].Sys.Unregister(id, "sub"); err != nil {
							mu.Lock()
							infra = fmt.Errorf("cannot unregister a subscriber: %v", err)
							mu.Unlock()
						}
					}()
				}
			}
			for k := range sc.Pubs {
				p := &sc.Pubs[k]
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(ms(p.At) + time.Duration(100+k)*time.Microsecond)
					n := max(p.N, 1)
					for i := 0; i < n; i++ {
						ev := p.Ev
						switch p.Ev {
						case "chan":
							ev = chname(p.Topic)
						case "none":
							ev = ""
						}
						x := &sent{p: p, body: fmt.Sprintf("%d.%d|%d|%s", k, i, p.Topic, p.Body), beg: now()}
						if p.Raw {
							x.body = string(p.Body)
						}
						if p.Act {
							x.err = ctxs[p.Node].Pub(sc.Topics[p.Topic], ev, []byte(x.body))
						} else {
							x.err = ns[p.Node].Sys.Pub(sc.Topics[p.Topic], ev, []byte(x.body))
						}
						x.end = now()
						mu.Lock()
						pubs = append(pubs, x)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			total, slowest := 0, 0
			for _, p := range sc.Pubs {
				total += max(p.N, 1)
			}
			for _, s := range sc.Subs {
				slowest = max(slowest, s.Dur)
			}
			time.Sleep(500*time.Millisecond + ms(total*slowest))
			w.Close()
			if infra != nil {
				return hx.Fail("%v", infra)
			}
			l := hx.Labels{}
			nt := 0
			// judge topic by topic
			for ti := range sc.Topics {
				var ls []int
				for k := range sc.Subs {
					if sc.Subs[k].Topic == ti {
						ls = append(ls, k)
						if lives[k] == nil {
							return hx.Fail("subscribing to topic %q never ended", sc.Topics[ti])
						}
						if lives[k].err != nil {
							return hx.Fail("subscribing to topic %q: %+v", sc.Topics[ti], *lives[k])
						}
					}
				}
				var want, maybe []*sent
				for _, x := range pubs {
					if x.p.Topic != ti {
						continue
					}
					if x.p.Ev == "none" {
						if x.err == nil {
							return hx.Fail("a publication without an event was accepted")
						}
						l.Add(true, "without-event")
						continue
					}
					if x.err != nil {
						return hx.Fail("publishing to %q from node %d: %v", sc.Topics[ti], x.p.Node, x.err)
					}
					if x.p.Ev == "unknown" || len(ls) == 0 {
						continue
					}
					first := lives[ls[0]]
					switch {
					case x.beg > first.end:
						want = append(want, x)
						l.Add(x.p.N > 1, "burst")
						l.Add(x.body == "", "empty body")
						l.Add(x.p.Ev == "other", "other-event")
						l.Add(len(ls) > 1 && sc.Subs[ls[0]].Down > 0, "resubscribed")
						l.Add(len(ls) > 1 && sc.Subs[ls[0]].Down == 0, "several actors on a channel")
					case x.end < first.beg:
						// before the channel existed
					default:
						maybe = append(maybe, x)
					}
				}
				nt += len(want)
				seen := map[string]*got{}
				var order []*got
				for i := range recv {
					r := &recv[i]
					if sc.Subs[r.life].Topic != ti {
						continue
					}
					known := strings.Contains(r.body, fmt.Sprintf("|%d|", ti))
					for _, x := range pubs {
						known = known || x.p.Raw && x.p.Topic == ti && x.body == r.body
					}
					if !known {
						return hx.Fail("a subscriber of topic %q received %.100q, which was not published to it", sc.Topics[ti], r.body)
					}
					if o := seen[r.body]; o != nil {
						return hx.Fail("%.100q was handled twice, at %v by subscriber %d and at %v by subscriber %d", r.body, o.at, o.life, r.at, r.life)
					}
					seen[r.body] = r
					order = append(order, r)
				}
				for _, x := range append(append([]*sent{}, want...), maybe...) {
					r := seen[x.body]
					if r == nil {
						continue
					}
					delete(seen, x.body)
					wc := x.p.Ev
					we := map[string]string{"chan": chname(ti), "other": "other"}[x.p.Ev]
					if r.chain != wc || r.ev != we {
						return hx.Fail("%q was published with event %s; its subscriber handled it by the chain of %q with event %q", x.body, we, r.chain, r.ev)
					}
				}
				for b := range seen {
					return hx.Fail("a subscriber of topic %q received %.100q, which was published before it subscribed, or never, or has no chain", sc.Topics[ti], b)
				}
				got := map[string]int{}
				for i, r := range order {
					got[r.body] = i
				}
				var miss []string
				for _, x := range want {
					if _, ok := got[x.body]; !ok {
						miss = append(miss, fmt.Sprintf("%q at %v", x.body, x.beg))
					}
				}
				if len(miss) > 0 {
					sort.Strings(miss)
					return hx.Fail("topic %q, subscribed since %v: never handled: %v", sc.Topics[ti], lives[ls[0]].end, miss[:min(4, len(miss))])
				}
				for i, x := range want {
					for _, y := range want[i+1:] {
						if x.end < y.beg || x.p == y.p {
							// an earlier life may still be working off its mailbox
							if got[x.body] > got[y.body] && order[got[x.body]].life == order[got[y.body]].life {
								return hx.Fail("topic %q: %q was published before %q but handled after it", sc.Topics[ti], x.body, y.body)
							}
						}
					}
				}
			}
			return hx.Out{NonTrivial: nt > 0 && len(pubs) > 1, Labels: l.List()}
		})
	}, hx.Finding{Key: "two-channels", Run: twoChannels}, hx.Finding{Key: "exited-reader", Run: exitedReader})
}
