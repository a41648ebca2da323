package sys

import (
	"context"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S06

type dmsg struct {
	At   int    `json:"at"`
	To   int    `json:"to"`
	Kind string `json:"kind"` // call, send, rcall: a call from another node (only in real time)
	Dur  int    `json:"dur"`
	N    int    `json:"n"`
}

type dact struct {
	Node int `json:"node"`
	Ty   int `json:"ty"`
	Int  int `json:"int,omitempty"` // interval of a timer
	TDur int `json:"tdur,omitempty"`
}

type scnS06 struct {
	Signal bool   `json:"signal,omitempty"` // node 0 is ended by SIGTERM, in real time
	Sig    int    `json:"sig,omitempty"`
	Nodes  int    `json:"nodes"`
	Limit  []int  `json:"limit"`
	Acts   []dact `json:"acts"`
	Msgs   []dmsg `json:"msgs"`
	Down   []int  `json:"down"` // ms after the start, -1: stays up
	Again  []int  `json:"again"`
	Old    []dact `json:"old,omitempty"`    // records an earlier run of the node has left
	Topics bool   `json:"topics,omitempty"` // there is a topic with the name of each node
}

func genS06(rt *rapid.T) scnS06 {
	sc := scnS06{Signal: rapid.IntRange(0, 24).Draw(rt, "signal") == 0, Sig: rapid.IntRange(0, 2).Draw(rt, "sig"), Nodes: rapid.IntRange(1, 3).Draw(rt, "nodes")}
	span, dur := 120, 40
	if sc.Signal {
		span, dur = 30, 12
		if sc.Nodes > 2 {
			sc.Nodes = 2
		}
	}
	long := sc.Signal && rapid.IntRange(0, 15).Draw(rt, "long") == 11 // seconds of work are left
	for i := rapid.IntRange(1, 2).Draw(rt, "types"); i > 0; i-- {
		sc.Limit = append(sc.Limit, rapid.SampledFrom([]int{0, 8}).Draw(rt, "limit"))
	}
	for i := rapid.IntRange(1, 6).Draw(rt, "acts"); i > 0; i-- {
		a := dact{Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "node"), Ty: rapid.IntRange(0, len(sc.Limit)-1).Draw(rt, "ty")}
		if rapid.IntRange(0, 2).Draw(rt, "tm") == 0 {
			a.Int, a.TDur = rapid.IntRange(5, 50).Draw(rt, "int"), 0
			a.TDur = rapid.IntRange(0, a.Int/3).Draw(rt, "tdur")
		}
		sc.Acts = append(sc.Acts, a)
	}
	if !sc.Signal && rapid.IntRange(0, 63).Draw(rt, "crowded") == 37 {
		sc.Limit[0] = 0
		for i := rapid.SampledFrom([]int{20, 70, 300}).Draw(rt, "crowd"); i > 0; i-- {
			sc.Acts = append(sc.Acts, dact{Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "node")})
		}
	}
	if !sc.Signal && rapid.IntRange(0, 3).Draw(rt, "old") == 2 {
		for i := rapid.IntRange(1, 4).Draw(rt, "olds"); i > 0; i-- {
			sc.Old = append(sc.Old, dact{Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "onode"), Ty: rapid.IntRange(0, len(sc.Limit)-1).Draw(rt, "oty")})
		}
	}
	sc.Topics = rapid.IntRange(0, 7).Draw(rt, "topics") == 5
	slow := false
	for i := rapid.IntRange(0, 12).Draw(rt, "msgs"); i > 0; i-- {
		m := dmsg{At: rapid.IntRange(0, span).Draw(rt, "at"), To: rapid.IntRange(0, len(sc.Acts)-1).Draw(rt, "to"),
			Kind: rapid.SampledFrom([]string{"call", "send", "send"}).Draw(rt, "kind"), Dur: rapid.IntRange(0, dur).Draw(rt, "dur"), N: rapid.IntRange(1, 4).Draw(rt, "n")}
		if sc.Signal && sc.Nodes > 1 && sc.Acts[m.To].Node == 0 && rapid.Bool().Draw(rt, "remote") {
			m.Kind = "rcall"
			if rapid.Bool().Draw(rt, "rlong") {
				m.Dur += 20
			}
		}
		if !sc.Signal && !slow && rapid.IntRange(0, 30).Draw(rt, "slow") == 0 {
			slow = true
			m.Dur, m.N = 1500, 1
		}
		sc.Msgs = append(sc.Msgs, m)
	}
	if long {
		for i, a := range sc.Acts {
			if a.Node == 0 {
				n := rapid.IntRange(1, 3).Draw(rt, "longn")
				sc.Msgs = append(sc.Msgs, dmsg{At: 0, To: i, Kind: "send", Dur: rapid.IntRange(1500, 7500).Draw(rt, "longdur") / n, N: n})
			}
		}
	}
	for i := 0; i < sc.Nodes; i++ {
		d := rapid.IntRange(-1, span).Draw(rt, "down")
		if sc.Signal {
			d = -1
			if i == 0 {
				d = rapid.IntRange(0, span).Draw(rt, "down")
			}
		}
		sc.Down = append(sc.Down, d)
	}
	for range sc.Acts {
		sc.Again = append(sc.Again, rapid.IntRange(0, sc.Nodes-1).Draw(rt, "again"))
	}
	return sc
}

type dinst struct {
	m        dmsg
	offered  time.Duration
	returned time.Duration
	err      error
	runs     int
	start    time.Duration
	end      time.Duration
}

type dcb struct { // one callback
	act        int
	start, end time.Duration
	what       string
}

func TestS06(t *testing.T) {
	sigs := make(chan os.Signal, 100)
	signal.Notify(sigs, syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT) // an early signal must not end the harness
	hx.Check(t, "S06", "a node was shut down while an actor on it had unfinished messages or a timer, or while another node had actors", genS06, func(t *testing.T, sc scnS06) hx.Out {
		if sc.Signal {
			return runS06(sc)
		}
		return hx.Bubble(t, func() hx.Out { return runS06(sc) })
	})
}

func runS06(sc scnS06) hx.Out {
	ctx := context.Background()
	var mu sync.Mutex
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	var all []*dinst
	var cbs []*dcb
	run := func(a int, what string, d time.Duration, in *dinst) {
		c := &dcb{act: a, start: now(), what: what}
		mu.Lock()
		cbs = append(cbs, c)
		if in != nil {
			in.runs++
			in.start = c.start
		}
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		c.end = now()
		if in != nil {
			in.end = c.end
		}
		mu.Unlock()
	}
	var specs []hb.Spec
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	again := false
	for ty, lim := range sc.Limit {
		if lim > 0 { // all places are taken at the start
			lim = 0
			for _, a := range sc.Acts {
				if a.Ty == ty {
					lim++
				}
			}
			for _, a := range sc.Old {
				if a.Ty == ty {
					lim++
				}
			}
		}
		specs = append(specs, hb.Spec{Ty: tyn(ty), Weight: 4 + ty, Limit: lim, New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) {
				k, _ := strconv.Atoi(a.Id[2:])
				a.OnEvent("go", func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
						i, _ := strconv.Atoi(string(mw.Req.Body))
						mu.Lock()
						in := all[i]
						mu.Unlock()
						run(k, fmt.Sprintf("message %d", i), ms(in.m.Dur), in)
						mw.Res.Body = []byte("done")
						return nil
					}}
				})
				if d := sc.Acts[k]; d.Int > 0 && !again {
					a.OnTimer(int64(d.Int), int64(d.Int), func(interface{}) error {
						run(k, "a timer", ms(d.TDur), nil)
						return nil
					}, nil)
				}
			})
		}})
	}
	w := hb.New(specs...)
	defer w.Close()
	ports := make([]int, sc.Nodes)
	if sc.Signal {
		ports = hb.FreePorts(sc.Nodes)
	}
	addr := func(n int) string {
		if sc.Signal {
			return "127.0.0.1"
		}
		return ip(n)
	}
	name := func(n int) string { return fmt.Sprintf("n%d", n) }
	old := func(i int) string { return fmt.Sprintf("old%d", i) }
	for i, a := range sc.Old {
		b := addressbook.New(core.AddressInfo{Node: name(a.Node), Ip: addr(a.Node), Port: ports[a.Node]})
		if err := b.Register(ctx, tyn(a.Ty), old(i), 4+a.Ty); err != nil {
			return hx.Out{Infra: err}
		}
	}
	var nod []*hb.Nod
	for n := 0; n < sc.Nodes; n++ {
		nod = append(nod, w.Node(name(n), addr(n), ports[n]))
	}
	for i, a := range sc.Acts {
		if _, err := nod[a.Node].Reg(tyn(a.Ty), idn(i)); err != nil {
			return hx.Out{Infra: err}
		}
	}
	if sc.Topics {
		for n := range nod {
			if err := nod[0].Sys.Pub(name(n), "ev", []byte("x")); err != nil {
				return hx.Fail("publish on a topic named like a node: %v", err)
			}
		}
	}
	var wg sync.WaitGroup
	t0 = time.Now()
	began, over := make([]time.Duration, sc.Nodes), make([]time.Duration, sc.Nodes)
	for mi, m := range sc.Msgs {
		for c := 0; c < m.N; c++ {
			wg.Add(1)
			mu.Lock()
			in := &dinst{m: m}
			i := len(all)
			all = append(all, in)
			mu.Unlock()
			go func() {
				defer wg.Done()
				time.Sleep(ms(m.At) + time.Duration(100+mi*20)*time.Microsecond - now())
				a := sc.Acts[m.To]
				n := nod[a.Node]
				if m.Kind == "rcall" {
					n = nod[1]
				}
				mw := msg.NewBuilder(ctx).WithReqBody([]byte(strconv.Itoa(i))).Build()
				off := now()
				var err error
				if m.Kind == "send" {
					err = n.Sys.Send(idn(m.To), tyn(a.Ty), "go", mw)
				} else {
					err = n.Sys.Call(idn(m.To), tyn(a.Ty), "go", mw)
				}
				if err == nil {
					err = mw.Err
				}
				mu.Lock()
				in.offered, in.returned, in.err = off, now(), err
				mu.Unlock()
			}()
		}
	}
	for n, d := range sc.Down {
		if d < 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(d) + time.Duration(50+n)*time.Microsecond - now())
			if !sc.Signal {
				b := now()
				nod[n].Exit()
				mu.Lock()
				began[n], over[n] = b, now()
				mu.Unlock()
				return
			}
			done := make(chan struct{})
			go func() {
				nod[n].WaitClose()
				close(done)
			}()
			time.Sleep(10 * time.Millisecond)
			b := now()
			for k := 0; ; k++ {
				syscall.Kill(os.Getpid(), []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[sc.Sig])
				select {
				case <-done:
					nod[n].Gone = true
					mu.Lock()
					began[n], over[n] = b, now()
					mu.Unlock()
					return
				case <-time.After(2 * time.Second):
				}
			}
		}()
	}
	wg.Wait()
	// nothing may happen on the nodes that are down while the others go on
	if sc.Signal {
		time.Sleep(60 * time.Millisecond)
		for k := 0; k < 2000; k++ { // the nodes that are up work off what they have
			open := false
			mu.Lock()
			for _, in := range all {
				open = open || sc.Down[sc.Acts[in.m.To].Node] < 0 && in.err == nil && in.end == 0
			}
			mu.Unlock()
			if !open {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	} else {
		time.Sleep(15 * time.Second)
	}
	mu.Lock()
	defer mu.Unlock()
	l := hx.Labels{}
	nt := false
	l.Add(sc.Signal, "by a signal")
	downs := 0
	for i, in := range all {
		n := sc.Acts[in.m.To].Node
		down := sc.Down[n] >= 0
		if in.runs > 1 {
			return hx.Fail("message %d was executed %d times", i, in.runs)
		}
		if in.err == nil && in.runs == 0 && (in.m.Kind != "send" || !down || in.returned < began[n]) {
			return hx.Fail("message %d, accepted at %v, was never executed; the shutdown of node %d began at %v", i, in.returned, n, began[n])
		}
		if down && in.err == nil && in.runs == 1 && in.offered < began[n] {
			if in.end > over[n] || in.end == 0 {
				return hx.Fail("message %d was executed until %v, the shutdown was over at %v", i, in.end, over[n])
			}
			if in.end > began[n] {
				l["unfinished messages"] = true
				nt = true
			}
		}
		if down && in.m.Kind == "rcall" && in.runs == 1 && in.start < began[n] {
			l.Add(in.end > began[n], "call from another node in progress")
			if in.err != nil {
				return hx.Fail("a call from another node was handled from %v to %v, it returned %v at %v; the shutdown began at %v", in.start, in.end, in.err, in.returned, began[n])
			}
		}
		if !down && in.err != nil {
			return hx.Fail("message %d to node %d, which is up: %v", i, n, in.err)
		}
	}
	for _, c := range cbs {
		n := sc.Acts[c.act].Node
		if sc.Down[n] >= 0 && (c.end > over[n] || c.end == 0) {
			return hx.Fail("on node %d %s ran from %v to %v, but its shutdown was over at %v", n, c.what, c.start, c.end, over[n])
		}
	}
	for n, d := range sc.Down {
		if d < 0 {
			continue
		}
		downs++
		for _, a := range sc.Acts {
			if a.Node == n && a.Int > 0 {
				l["timer"] = true
				nt = true
			}
			if a.Node != n {
				l["another node has actors"] = true
				nt = true
			}
		}
		if over[n]-began[n] > 12*time.Second {
			return hx.Fail("the shutdown of node %d took %v", n, over[n]-began[n])
		}
	}
	l.Add(downs > 1, "several nodes down")
	l.Add(sc.Topics, "topics named like nodes")
	l.Add(len(sc.Old) > 0, "records of an earlier run")
	// the address book afterwards
	audit := func(where []int) error {
		obs := addressbook.New(core.AddressInfo{Node: "observer", Ip: "10.9.9.9"})
		for i, a := range sc.Acts {
			r, err := obs.GetByID(ctx, idn(i))
			if where[i] < 0 {
				if err != addressbook.ErrUnknownActor {
					return fmt.Errorf("actor %s of node %d, which is down: %+v %v", idn(i), a.Node, r, err)
				}
			} else if err != nil || r.Node != name(where[i]) || r.Ip != addr(where[i]) || r.Port != ports[where[i]] {
				return fmt.Errorf("actor %s on node %d: %+v %v", idn(i), where[i], r, err)
			}
		}
		for i, a := range sc.Old {
			r, err := obs.GetByID(ctx, old(i))
			if sc.Down[a.Node] >= 0 && err != addressbook.ErrUnknownActor || sc.Down[a.Node] < 0 && (err != nil || r.Node != name(a.Node)) {
				return fmt.Errorf("record %s left by an earlier run of node %d (down: %v): %+v %v", old(i), a.Node, sc.Down[a.Node] >= 0, r, err)
			}
		}
		for ty := range sc.Limit {
			var want, got []string
			for i, a := range sc.Old {
				if a.Ty == ty && sc.Down[a.Node] < 0 {
					want = append(want, old(i)+"@"+name(a.Node))
				}
			}
			for i, a := range sc.Acts {
				if a.Ty == ty && where[i] >= 0 {
					want = append(want, idn(i)+"@"+name(where[i]))
				}
			}
			rs, err := obs.GetByType(ctx, tyn(ty))
			for _, r := range rs {
				got = append(got, r.ActorId+"@"+r.Node)
			}
			sort.Strings(want)
			sort.Strings(got)
			if err != nil || fmt.Sprint(want) != fmt.Sprint(got) {
				return fmt.Errorf("actors of type %s: %v %v, want %v", tyn(ty), got, err, want)
			}
		}
		ns := w.Raw.HGetAll(ctx, "braid.addressbook.nodes").Val()
		for n := range nod {
			ld, has := 0, false
			for _, a := range sc.Old {
				if a.Node == n && sc.Down[n] < 0 {
					ld += 4 + a.Ty
					has = true
				}
			}
			for i, a := range sc.Acts {
				if where[i] == n {
					ld += 4 + a.Ty
					has = true
				}
			}
			if got, _ := w.Raw.HGet(ctx, "{node:"+name(n)+"}", "total_weight").Int(); got != ld {
				return fmt.Errorf("node %d has the load %d, want %d", n, got, ld)
			}
			if _, ok := ns[name(n)]; has != ok {
				return fmt.Errorf("node %d has actors: %v, is recorded: %v", n, has, ok)
			}
		}
		return nil
	}
	where := make([]int, len(sc.Acts))
	for i, a := range sc.Acts {
		where[i] = a.Node
		if sc.Down[a.Node] >= 0 {
			where[i] = -1
		}
	}
	if err := audit(where); err != nil {
		return hx.Fail("after the shutdown of %d of %d nodes: %v", downs, sc.Nodes, err)
	}
	if sc.Signal {
		return hx.Out{NonTrivial: nt, Labels: l.List()}
	}
	// the ids and places are free for the nodes that are up, and those started again
	again = true
	for i, a := range sc.Acts {
		if where[i] >= 0 {
			continue
		}
		n := sc.Again[i]
		if nod[n].Gone {
			nod[n] = w.Node(name(n), addr(n), ports[n])
		}
		mu.Unlock()
		_, err := nod[n].Reg(tyn(a.Ty), idn(i))
		mu.Lock()
		if err != nil {
			return hx.Fail("the freed id %s on node %d: %v", idn(i), n, err)
		}
		where[i] = n
		l["registered again"] = true
	}
	if err := audit(where); err != nil {
		return hx.Fail("after registering again: %v", err)
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}
