package ps

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ L04

type tstep struct {
	Do   string `json:"do"` // create, get, burst, pub, sub, join, leave, close, drop, actor
	PS   int    `json:"ps"`
	T    int    `json:"t"`
	TTL  int    `json:"ttl,omitempty"` // s
	Mode string `json:"mode,omitempty"`
	N    int    `json:"n,omitempty"`
	Ch   int    `json:"ch,omitempty"`
	Mid  int    `json:"mid,omitempty"` // close: a message is published before the Mid-th store command of the close
}

type scnL04 struct {
	Inst  int     `json:"inst"`
	Names int     `json:"names"`
	Steps []tstep `json:"steps"`
	Style int     `json:"style,omitempty"` // of the names
}

func genL04(rt *rapid.T) scnL04 {
	sc := scnL04{Inst: rapid.IntRange(1, 2).Draw(rt, "inst"), Names: rapid.IntRange(1, 3).Draw(rt, "names")}
	if rapid.IntRange(0, 2).Draw(rt, "styled") == 1 {
		sc.Style = rapid.IntRange(1, hb.Styles-1).Draw(rt, "style")
	}
	for i := rapid.IntRange(3, 25).Draw(rt, "steps"); i > 0; i-- {
		s := tstep{Do: rapid.SampledFrom([]string{"create", "create", "get", "burst", "pub", "pub", "pub", "sub", "close", "close", "drop", "actor", "join", "leave"}).Draw(rt, "do"),
			PS: rapid.IntRange(0, sc.Inst-1).Draw(rt, "ps"), T: rapid.IntRange(0, sc.Names-1).Draw(rt, "t")}
		switch s.Do {
		case "create", "burst", "actor":
			s.TTL = rapid.SampledFrom([]int{0, 0, 1, 60, 86400}).Draw(rt, "ttl")
			s.N = rapid.IntRange(2, 6).Draw(rt, "n")
		case "pub":
			s.N = rapid.IntRange(1, 3).Draw(rt, "n")
			if rapid.IntRange(0, 255).Draw(rt, "big") == 137 {
				s.N = rapid.SampledFrom([]int{120, 300, 1100, 4100, 11000}).Draw(rt, "bign")
			}
		case "sub":
			s.Mode = rapid.SampledFrom([]string{"", "$", "0-0"}).Draw(rt, "mode")
		case "close":
			if rapid.IntRange(0, 3).Draw(rt, "m") == 0 {
				s.Mid = rapid.IntRange(1, 4).Draw(rt, "mid")
			}
		}
		sc.Steps = append(sc.Steps, s)
		if s.Do == "sub" && rapid.IntRange(0, 3).Draw(rt, "shared") == 0 {
			// another subscriber shares the channel, and the first one may go
			pub := tstep{Do: "pub", PS: s.PS, T: s.T, N: rapid.IntRange(1, 12).Draw(rt, "n")}
			sc.Steps = append(sc.Steps, tstep{Do: "join", PS: s.PS, T: s.T}, pub)
			if rapid.IntRange(0, 1).Draw(rt, "go") == 0 {
				sc.Steps = append(sc.Steps, tstep{Do: "leave", PS: s.PS, T: s.T}, pub)
			}
		}
		if s.Do == "sub" && rapid.IntRange(0, 1).Draw(rt, "resub") == 0 {
			// the channel goes, messages are stored, another one comes
			o := s
			o.Ch, o.Mode = rapid.IntRange(0, 1).Draw(rt, "ch"), rapid.SampledFrom([]string{"", "$", "0-0"}).Draw(rt, "mode2")
			pub := tstep{Do: "pub", PS: s.PS, T: s.T, N: rapid.IntRange(1, 3).Draw(rt, "n")}
			sc.Steps = append(sc.Steps, tstep{Do: "drop", PS: s.PS, T: s.T}, pub, o)
			pub.N = 1
			sc.Steps = append(sc.Steps, pub)
		}
	}
	return sc
}

type mtopic struct {
	exists bool
	known  bool
	ttl    time.Duration
	store  []string // messages in the store nobody has consumed
	group  bool
	want   []string // what the channel must have delivered
	q      *mpsc.Queue
	ch     *pubsub.Channel
	chn    string
	first  []string        // the store's name of the subscriber of ch
	mate   *pubsub.Channel // another subscriber that shares the channel
	mateq  *mpsc.Queue
	shared bool                  // two subscribers have shared the channel: the order between them is open
	objs   map[int]*pubsub.Topic // per instance
	closed map[int]bool
	stale  map[int]bool // instances that still hold a topic another one has closed
}

func TestL04(t *testing.T) {
	hx.Check(t, "L04", "a topic with a message, a channel or a time-to-live was created again, closed or subscribed", genL04, func(t *testing.T, sc scnL04) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			var subErr error
			var subAs func(a *hb.Act)
			w := hb.New(hb.Spec{Ty: "sub", New: func(b core.IActorBuilder) core.IActor {
				return hb.With(b, func(a *hb.Act) { subAs(a) })
			}})
			defer w.Close()
			var node *hb.Nod
			ctx := context.Background()
			var inst []*pubsub.Pubsub
			for i := 0; i < sc.Inst; i++ {
				inst = append(inst, pubsub.BuildWithOption())
			}
			ts := make([]*mtopic, sc.Names)
			for i := range ts {
				ts[i] = &mtopic{objs: map[int]*pubsub.Topic{}, stale: map[int]bool{}, closed: map[int]bool{}}
			}
			name := func(i int) string { return hb.Styled(sc.Style, "topic:", i) }
			l := hx.Labels{}
			seq := 0
			body := func() string { seq++; return fmt.Sprintf("m%d", seq) }
			got := map[int][]string{}
			create := func(m *mtopic, ttl int) {
				if m.exists {
					l.Add(ttl > 0 || len(m.store) > 0 || m.group, "created-again")
					return
				}
				m.exists, m.known, m.ttl = true, true, time.Duration(ttl)*time.Second
				l.Add(ttl > 0, "ttl")
			}
			published := func(m *mtopic, b string) {
				m.exists = true
				if m.group {
					m.want = append(m.want, b)
				} else {
					m.store = append(m.store, b)
				}
			}
			for si, s := range sc.Steps {
				m, ps := ts[s.T], inst[s.PS]
				nm := name(s.T)
				when := fmt.Sprintf("step %d, %s of topic %d on instance %d", si, s.Do, s.T, s.PS)
				if m.stale[s.PS] {
					continue
				}
				opts := []pubsub.TopicOption{}
				if s.TTL > 0 {
					opts = append(opts, pubsub.WithTTL(time.Duration(s.TTL)*time.Second))
				}
				switch s.Do {
				case "create":
					var o *pubsub.Topic
					if s.N%2 == 0 {
						o = ps.CreateTopic(nm, opts...)
					} else {
						o = ps.GetOrCreateTopic(nm, opts...)
					}
					if p := m.objs[s.PS]; o == nil || p != nil && p != o {
						return hx.Fail("%s: another topic than before", when)
					}
					if m.objs[s.PS] == nil {
						create(m, s.TTL)
					}
					m.objs[s.PS] = o
				case "actor":
					// an actor subscribes to a topic of its own, naming a time-to-live
					if node == nil {
						node = w.Node("n", "127.0.0.1", 0)
					}
					nm := fmt.Sprintf("actors:%d", s.T)
					ttl := w.Raw.TTL(ctx, nm).Val()
					if w.Raw.Exists(ctx, nm).Val() == 0 && s.TTL > 0 {
						ttl = time.Duration(s.TTL) * time.Second
					} else if ttl < 0 {
						ttl = -1
					}
					subAs = func(a *hb.Act) {
						subErr = a.Sub(nm, a.Id, func(core.ActorContext) core.IChain { return &actor.DefaultChain{} }, opts...)
					}
					_, err := node.Reg("sub", fmt.Sprintf("s%d", si))
					if err != nil || subErr != nil {
						return hx.Fail("%s: subscribing: %v %v", when, err, subErr)
					}
					if got := w.Raw.TTL(ctx, nm).Val(); got != ttl {
						return hx.Fail("%s: an actor's subscription with a time-to-live of %d s left the topic with %v, expected %v", when, s.TTL, got, ttl)
					}
					if !w.Raw.SIsMember(ctx, pubsub.BraidPubsubTopic, nm).Val() {
						return hx.Fail("%s: the store does not know a topic an actor subscribed to", when)
					}
					l.Add(s.TTL > 0, "actor-ttl")
					continue
				case "burst":
					res := make([]*pubsub.Topic, s.N)
					var wg sync.WaitGroup
					for i := range res {
						wg.Add(1)
						go func() {
							defer wg.Done()
							if i%3 == 2 {
								res[i] = ps.CreateTopic(nm, opts...)
							} else {
								res[i] = ps.GetOrCreateTopic(nm, opts...)
							}
						}()
					}
					wg.Wait()
					for i, o := range res {
						if o == nil || o != res[0] || m.objs[s.PS] != nil && o != m.objs[s.PS] {
							return hx.Fail("%s: of %d concurrent requests number %d got another topic", when, s.N, i)
						}
					}
					if m.objs[s.PS] == nil {
						create(m, s.TTL)
					}
					m.objs[s.PS] = res[0]
					l.Add(true, "concurrent-create")
				case "get":
					if m.closed[s.PS] && m.objs[s.PS] == nil {
						continue // it may or may not remember a topic it has removed
					}
					if o := ps.GetTopic(nm); o != m.objs[s.PS] {
						return hx.Fail("%s: found %v, expected %v", when, o != nil, m.objs[s.PS] != nil)
					}
				case "pub":
					if m.objs[s.PS] == nil {
						continue
					}
					for i := 0; i < s.N; i++ {
						b := body()
						if err := m.objs[s.PS].Pub(ctx, "ev", []byte(b)); err != nil {
							return hx.Fail("%s: %v", when, err)
						}
						published(m, b)
						if err := m.objs[s.PS].Pub(ctx, "", []byte("x")); err == nil {
							return hx.Fail("%s: a message without event was accepted", when)
						}
					}
				case "sub":
					if m.objs[s.PS] == nil || m.group {
						continue
					}
					var so []interface{}
					if s.Mode != "" {
						so = append(so, pubsub.WithReadMode(s.Mode))
					}
					m.ch, m.chn = nil, hb.Styled(sc.Style, "chan", s.Ch)
					ch, err := m.objs[s.PS].Sub(ctx, m.chn, so...)
					if err != nil {
						return hx.Fail("%s: %v", when, err)
					}
					l.Add(m.q != nil, "subscribed-again")
					m.q = mpsc.New()
					m.ch = ch
					m.mate, m.mateq, m.shared = nil, nil, false
					ch.Arrived(m.q)
					m.group = true
					m.want = nil
					got[s.T] = nil
					if s.Mode == pubsub.ReadModeBeginning {
						m.want = append(m.want, m.store...)
						l.Add(len(m.store) > 0, "from-beginning")
						m.store = nil
					} else {
						l.Add(len(m.store) > 0, "only-later")
					}
				case "drop":
					// the channel's process ends and its channel is closed
					if !m.group {
						continue
					}
					time.Sleep(50 * time.Millisecond)
					w.Hook.Kill(nm, m.chn)
					time.Sleep(50 * time.Millisecond)
					if err := m.ch.Close(); err != nil {
						return hx.Fail("%s: %v", when, err)
					}
					if m.mate != nil {
						if err := m.mate.Close(); err != nil {
							return hx.Fail("%s: %v", when, err)
						}
						m.mate = nil
					}
					m.group = false
					l.Add(true, "channel-dropped")
				case "join":
					// another subscriber takes part in the channel: a message goes to one of them
					if m.objs[s.PS] == nil || !m.group || m.mate != nil {
						continue
					}
					time.Sleep(50 * time.Millisecond)
					m.first = w.Hook.Readers(nm, m.chn)
					ch, err := m.objs[s.PS].Sub(ctx, m.chn)
					if err != nil {
						return hx.Fail("%s: %v", when, err)
					}
					if m.mateq == nil {
						m.mateq = mpsc.New()
					}
					ch.Arrived(m.mateq)
					m.mate, m.shared = ch, true
					time.Sleep(50 * time.Millisecond)
					for _, c := range w.Hook.Readers(nm, m.chn) {
						// a consumer is known to the store when it first reads; miniredis
						// waits until it has read a message
						hb.Must(w.Raw.XGroupCreateConsumer(ctx, nm, m.chn, c).Err())
					}
				case "leave":
					// the subscriber that came first goes, the other one stays
					if !m.group || m.mate == nil {
						continue
					}
					time.Sleep(50 * time.Millisecond)
					w.Hook.KillOnly(m.first)
					time.Sleep(50 * time.Millisecond)
					if err := m.ch.Close(); err != nil {
						return hx.Fail("%s: %v", when, err)
					}
					m.ch, m.mate = m.mate, nil
					l.Add(true, "one-of-two-left")
				case "close":
					o := m.objs[s.PS]
					if o == nil {
						continue
					}
					time.Sleep(50 * time.Millisecond) // let a channel consume what is there
					n := 0
					midDone := false
					if s.Mid > 0 {
						hook := func() {
							if n++; n == s.Mid && !midDone {
								midDone = true
								b := body()
								hb.Must(w.Raw.XAdd(ctx, &redis.XAddArgs{Stream: nm, ID: "*", Values: []string{"msg", b, "event", "ev"}}).Err())
								published(m, b)
							}
						}
						w.Hook.Cmd = func(ctx context.Context, cmd redis.Cmder, next func() error) error {
							if strings.HasPrefix(cmd.Name(), "x") && strings.Contains(fmt.Sprint(cmd.Args()...), nm) || strings.HasPrefix(cmd.Name(), "eval") || cmd.Name() == "watch" {
								hook()
							}
							return next()
						}
						w.Hook.Pipe = func(ctx context.Context, cmds []redis.Cmder, next func() error) error {
							hook()
							return next()
						}
						if m.group {
							w.Hook.Cmd, w.Hook.Pipe = nil, nil // its own commands come in between
						}
					}
					before := *m
					err := o.Close()
					w.Hook.Cmd, w.Hook.Pipe = nil, nil
					if err != nil && !midDone {
						return hx.Fail("%s: %v", when, err)
					}
					l.Add(midDone, "published-while-closing")
					l.Add(m.group, "closed-with-channel")
					l.Add(len(m.store) > 0, "closed-with-messages")
					if midDone && !before.group && len(before.store) == 0 {
						// removed before or kept because of the message: it must be there in any case
						left := w.Raw.XLen(ctx, nm).Val()
						if left != int64(len(m.store)) {
							return hx.Fail("%s: a message published while it was closed is gone: %d messages are there, expected %d", when, left, len(m.store))
						}
						// from here on only what the store holds counts
						m.known = w.Raw.SIsMember(ctx, pubsub.BraidPubsubTopic, nm).Val()
						m.ttl = w.Raw.TTL(ctx, nm).Val()
						if m.ttl < 0 {
							m.ttl = 0
						}
						for k := range m.objs {
							m.stale[k] = true
						}
						continue
					}
					if !m.group && len(m.store) == 0 {
						l.Add(m.exists, "removed")
						m.exists, m.known, m.ttl = false, false, 0
						delete(m.objs, s.PS)
						m.closed[s.PS] = true
						for k := range m.objs {
							m.stale[k] = true
						}
					}
				}
				time.Sleep(40 * time.Millisecond)
				if s.N > 100 {
					l.Add(true, "many-messages")
					time.Sleep(time.Duration(s.N) * 12 * time.Millisecond) // at the least one a poll
				}
				// compare the store with the model
				all := w.Raw.SMembers(ctx, pubsub.BraidPubsubTopic).Val()
				sort.Strings(all)
				var known []string
				for i := 0; i < len(all); {
					if strings.HasPrefix(all[i], "actors:") {
						all = append(all[:i], all[i+1:]...)
					} else {
						i++
					}
				}
				for i, m := range ts {
					nm := name(i)
					if m.known {
						known = append(known, nm)
					}
					if ex := w.Raw.Exists(ctx, nm).Val() == 1; ex != m.exists {
						return hx.Fail("after %s: topic %d is in the store: %v, expected %v", when, i, ex, m.exists)
					}
					if !m.exists {
						continue
					}
					ttl := w.Raw.TTL(ctx, nm).Val()
					if ttl < 0 {
						ttl = 0
					}
					if ttl != m.ttl {
						return hx.Fail("after %s: topic %d has time-to-live %v, expected %v", when, i, ttl, m.ttl)
					}
					gs := w.Raw.XInfoGroups(ctx, nm).Val()
					if (len(gs) == 1) != m.group || len(gs) > 1 {
						return hx.Fail("after %s: topic %d has groups %v, expected one: %v", when, i, gs, m.group)
					}
					var left []string
					for _, x := range w.Raw.XRange(ctx, nm, "-", "+").Val() {
						left = append(left, fmt.Sprint(x.Values["msg"]))
					}
					if fmt.Sprint(left) != fmt.Sprint(m.store) {
						return hx.Fail("after %s: topic %d holds %d messages %.2000q, expected %d %.2000q", when, i, len(left), left, len(m.store), m.store)
					}
					for m.q != nil {
						x := m.q.Pop()
						if x == nil && m.mateq != nil {
							x = m.mateq.Pop()
						}
						if x == nil {
							break
						}
						mw := x.(*msg.Wrapper)
						got[i] = append(got[i], string(mw.Req.Body))
						if mw.Req.Header.Event != "ev" {
							return hx.Fail("after %s: topic %d delivered event %q", when, i, mw.Req.Header.Event)
						}
					}
					want := m.want
					if m.shared {
						want = append([]string{}, want...)
						sort.Strings(want)
						sort.Strings(got[i])
						l.Add(len(want) > 1, "shared")
					}
					if fmt.Sprint(got[i]) != fmt.Sprint(want) {
						return hx.Fail("after %s: the channel of topic %d delivered %d messages %.2000q, expected %d %.2000q", when, i, len(got[i]), got[i], len(want), want)
					}
				}
				sort.Strings(known)
				if fmt.Sprint(all) != fmt.Sprint(known) {
					return hx.Fail("after %s: the store knows topics %v, expected %v", when, all, known)
				}
			}
			nt := l["created-again"] || l["closed-with-channel"] || l["closed-with-messages"] || l["from-beginning"] || l["only-later"] || l["removed"]
			return hx.Out{NonTrivial: nt, Labels: l.List()}
		})
	})
}
