package clu

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S05

type fcall struct {
	From  int    `json:"from"`
	Via   bool   `json:"via"` // made by an actor on that node
	How   string `json:"how"`
	ID    int    `json:"id"`
	Ty    int    `json:"ty"`
	Do    string `json:"do"`  // ok, slow, panic, err, stuck
	Dur   int    `json:"dur"` // of a slow handler, ms
	TO    int    `json:"to"`  // the caller's patience in ms, 0 endless
	Canc  bool   `json:"canc"`
	Send  bool   `json:"send"`
	Delay int    `json:"delay"` // in units of 100 us
}

type fstep struct {
	Op    string  `json:"op"` // calls, stop, reg, unreg, stale, peer, revive, garbage
	Node  int     `json:"node"`
	ID    int     `json:"id"`
	Mode  string  `json:"mode,omitempty"`
	Code  int     `json:"code,omitempty"`
	Calls []fcall `json:"calls,omitempty"`
	Stop  bool    `json:"stop,omitempty"` // Node is stopped while the calls are under way
	At    int     `json:"at,omitempty"`
}

type scnS05 struct {
	Nodes int     `json:"nodes"`
	Types int     `json:"types"`
	IDs   []int   `json:"ids"`
	At    []int   `json:"at"` // node of each id at first
	Steps []fstep `json:"steps"`
	Style int     `json:"style,omitempty"` // of the names
}

func genS05(rt *rapid.T) scnS05 {
	sc := scnS05{Nodes: rapid.SampledFrom([]int{2, 2, 3}).Draw(rt, "nodes"), Types: rapid.IntRange(1, 2).Draw(rt, "types")}
	n := rapid.IntRange(2, 6).Draw(rt, "ids")
	for i := 0; i < n; i++ {
		sc.IDs = append(sc.IDs, rapid.IntRange(0, sc.Types-1).Draw(rt, "ty"))
		sc.At = append(sc.At, rapid.IntRange(-2, sc.Nodes-1).Draw(rt, "at"))
	}
	at := -1 // the id that fails
	calls := func(stuck bool) []fcall {
		var r []fcall
		for k := rapid.IntRange(1, 5).Draw(rt, "calls"); k > 0; k-- {
			c := fcall{From: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "from"), Via: rapid.Bool().Draw(rt, "via"),
				How: rapid.SampledFrom([]string{"id", "id", "id", "any", "local"}).Draw(rt, "how"), ID: rapid.IntRange(0, n-1).Draw(rt, "id"), Ty: rapid.IntRange(0, sc.Types-1).Draw(rt, "cty"),
				Do: rapid.SampledFrom([]string{"ok", "ok", "ok", "slow", "slow", "panic", "err"}).Draw(rt, "do"), Send: rapid.IntRange(0, 4).Draw(rt, "send") == 0,
				Delay: rapid.IntRange(0, 20).Draw(rt, "delay")}
			if at >= 0 && !stuck && rapid.Bool().Draw(rt, "there") {
				c.How, c.ID, c.Ty = rapid.SampledFrom([]string{"id", "id", "any"}).Draw(rt, "thow"), at, sc.IDs[at]
			}
			if c.Do == "slow" {
				c.Dur = rapid.SampledFrom([]int{5, 60, 80}).Draw(rt, "dur")
			}
			if rapid.Bool().Draw(rt, "limited") {
				c.TO = rapid.SampledFrom([]int{1, 8, 8, 15, 3000}).Draw(rt, "to")
				c.Canc = rapid.Bool().Draw(rt, "canc")
			}
			if rapid.IntRange(0, 15).Draw(rt, "patient") == 11 { // a caller with time enough for a slow handler
				c.Do, c.Dur, c.TO, c.Send = "slow", rapid.SampledFrom([]int{150, 250}).Draw(rt, "pdur"), 3000, rapid.Bool().Draw(rt, "psend")
			}
			if stuck && rapid.IntRange(0, 2).Draw(rt, "stuck") > 0 {
				c.Do, c.TO, c.Send, c.How = "stuck", 0, false, "id"
			}
			r = append(r, c)
		}
		return r
	}
	for k := rapid.IntRange(2, 8).Draw(rt, "steps"); k > 0; k-- {
		s := fstep{Op: rapid.SampledFrom([]string{"calls", "calls", "calls", "calls", "stop", "reg", "reg", "unreg", "stale", "peer", "peer", "revive", "garbage"}).Draw(rt, "op"),
			Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "node"), ID: rapid.IntRange(0, n-1).Draw(rt, "sid")}
		switch s.Op {
		case "calls":
			s.Calls = calls(false)
			if rapid.IntRange(0, 5).Draw(rt, "stopping") == 0 {
				s.Stop, s.At = true, rapid.IntRange(0, 30).Draw(rt, "sat")
			}
		case "peer":
			s.Mode = rapid.SampledFrom([]string{"refuse", "hang", "status", "status", "drop", "cut", "mute"}).Draw(rt, "mode")
			s.Code = rapid.IntRange(1, 16).Draw(rt, "code")
			if rapid.IntRange(0, 3).Draw(rt, "unav") == 2 {
				s.Code = int(codes.Unavailable)
			}
		}
		if s.Op == "peer" || s.Op == "stale" {
			for i, n := range sc.At { // somebody who is nowhere yet, if there is one
				if n < 0 && rapid.Bool().Draw(rt, "free") {
					s.ID = i
				}
			}
			at = s.ID
			sc.Steps = append(sc.Steps, s)
			s = fstep{Op: "calls", Calls: calls(false)}
			if rapid.IntRange(0, 2).Draw(rt, "again") == 0 {
				sc.Steps = append(sc.Steps, s)
				s = fstep{Op: "revive", ID: at}
			}
		}
		sc.Steps = append(sc.Steps, s)
	}
	if rapid.IntRange(0, 149).Draw(rt, "long") == 149 {
		sc.Steps = append(sc.Steps, fstep{Op: "calls", Calls: calls(true)})
	}
	sc.Style = genStyle(rt)
	return sc
}

type acceptor struct {
	router.UnimplementedAcceptorServer
	f     func(ctx context.Context) (*router.RouteRes, error)
	asked func(key string)
}

// cutter is a listener whose connections can be cut.
type cutter struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
}

func (c *cutter) Accept() (net.Conn, error) {
	x, err := c.Listener.Accept()
	if err == nil {
		c.mu.Lock()
		c.conns = append(c.conns, x)
		c.mu.Unlock()
	}
	return x, err
}

func (c *cutter) cut() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.conns {
		x.Close()
	}
	c.conns = nil
}

func (a *acceptor) Routing(ctx context.Context, r *router.RouteReq) (*router.RouteRes, error) {
	a.asked(string(r.GetMsg().GetBody()))
	return a.f(ctx)
}

type fres struct {
	c     fcall
	key   string
	err   error
	body  string
	took  time.Duration
	gave  time.Time // when its context was seen to be over
	never bool      // the forwarding actor could not even be asked
	// when it was made
	cand  map[string]bool // ids that may be asked -> can be reached
	shaky bool            // the outcome is open: a node is stopping meanwhile
	busy  map[string]bool
}

func TestS05(t *testing.T) {
	hx.Check(t, "S05", "a call to another node failed, was given up, or was made after such a failure", genS05, func(t *testing.T, sc scnS05) hx.Out { return runS05(sc) })
}

func runS05(sc scnS05) hx.Out {
	style = sc.Style
	ctx := context.Background()
	var mu sync.Mutex
	plan := map[string]fcall{}
	asked := map[string]int{}       // key -> how often a peer was asked
	ran := map[string][]string{}    // key -> ids that handled it
	slept := map[string]time.Time{} // when a slow handler was through
	tasks := map[string]func(ac core.ActorContext){}
	work := func(ac core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
			key := string(mw.Req.Body)
			mu.Lock()
			c := plan[key]
			ran[key] = append(ran[key], ac.ID())
			mu.Unlock()
			switch c.Do {
			case "slow":
				time.Sleep(time.Duration(c.Dur) * time.Millisecond)
				mu.Lock()
				slept[key] = time.Now()
				mu.Unlock()
			case "stuck":
				time.Sleep(5500 * time.Millisecond)
			case "panic":
				panic("handler panics")
			case "err":
				return fmt.Errorf("handler error")
			}
			mw.Res.Body = []byte("re " + key)
			return nil
		}}
	}
	var specs []hb.Spec
	for ty := 0; ty < sc.Types; ty++ {
		specs = append(specs, hb.Spec{Ty: tyn(ty), Weight: 1, New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) { a.OnEvent("work", work) })
		}})
	}
	specs = append(specs, hb.Spec{Ty: "probe", New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) { a.OnEvent("work", work) })
	}}, hb.Spec{Ty: "relay", New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			a.OnEvent("do", func(ac core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
					mu.Lock()
					f := tasks[string(mw.Req.Body)]
					mu.Unlock()
					f(ac)
					return nil
				}}
			})
		})
	}})
	w := hb.New(specs...)
	defer w.Close()
	ports := hb.FreePorts(sc.Nodes)
	var nodes []*hb.Nod
	addNode := func(name string, port int) *hb.Nod {
		n := w.Node(name, "127.0.0.1", port)
		if _, err := n.Reg("probe", "probe-"+name); err != nil {
			panic(err)
		}
		for i := 0; i < 8; i++ {
			if _, err := n.Reg("relay", fmt.Sprintf("relay-%s-%d", name, i)); err != nil {
				panic(err)
			}
		}
		return n
	}
	for i := 0; i < sc.Nodes; i++ {
		nodes = append(nodes, addNode(ndn(i), ports[i]))
	}
	type spot struct {
		node int    // where it is, -1 nowhere
		bad  string // stale, or the mode of a peer
		port int
	}
	at := map[int]spot{}
	for id, n := range sc.At {
		at[id] = spot{node: -1}
		if n = max(n, -1); n >= 0 {
			if _, err := nodes[n].Reg(tyn(sc.IDs[id]), idn(id)); err != nil {
				return hx.Fail("registering %s: %v", idn(id), err)
			}
			at[id] = spot{node: n}
		}
	}
	stopped := map[int]bool{}
	up := func() []int {
		var r []int
		for i := range nodes {
			if !stopped[i] {
				r = append(r, i)
			}
		}
		return r
	}
	var closers []func()
	defer func() {
		for _, f := range closers {
			f()
		}
	}()
	lab := hx.Labels{}
	nt := false
	serial := 0
	occupied := map[string]time.Time{} // a handler may still be at work
	failed := false                    // some call to another node has failed
	// issue makes one call and waits for its end
	issue := func(r *fres, relay int) {
		c := r.c
		n := nodes[c.From]
		cctx := ctx
		if c.TO > 0 {
			var cancel func()
			if c.Canc {
				cctx, cancel = context.WithCancel(ctx)
				t := time.AfterFunc(time.Duration(c.TO)*time.Millisecond, cancel)
				defer t.Stop()
			} else {
				cctx, cancel = context.WithTimeout(ctx, time.Duration(c.TO)*time.Millisecond)
			}
			defer cancel()
			defer context.AfterFunc(cctx, func() {
				mu.Lock()
				r.gave = time.Now()
				mu.Unlock()
			})()
		}
		id, ty := idn(c.ID), tyn(sc.IDs[c.ID%len(sc.IDs)])
		if strings.HasPrefix(c.How, "probe-") {
			id, ty = c.How, "probe"
		}
		if c.How == "any" {
			id, ty = def.SymbolWildcard, tyn(c.Ty)
		} else if c.How == "local" {
			id, ty = def.SymbolLocalFirst, tyn(c.Ty)
		}
		m := msg.NewBuilder(cctx).WithReqBody([]byte(r.key)).Build()
		do := func(call, send func(id, ty, ev string, m *msg.Wrapper) error) {
			t := time.Now()
			if c.Send {
				r.err = send(id, ty, "work", m)
			} else {
				r.err = call(id, ty, "work", m)
				if r.err == nil && m.Err != nil { // a local call ends without an error when it takes too long
					r.err = m.Err
				}
			}
			r.took = time.Since(t)
			if m.Res != nil {
				r.body = string(m.Res.Body)
			}
		}
		if !c.Via {
			do(n.Sys.Call, n.Sys.Send)
			return
		}
		done := make(chan struct{})
		mu.Lock()
		tasks[r.key] = func(ac core.ActorContext) { defer close(done); do(ac.Call, ac.Send) }
		mu.Unlock()
		name := ndn(c.From)
		if err := n.Sys.Send(fmt.Sprintf("relay-%s-%d", name, relay), "relay", "do", msg.NewBuilder(ctx).WithReqBody([]byte(r.key)).Build()); err != nil {
			r.never = true
			return
		}
		<-done
	}
	newRes := func(c fcall) *fres {
		serial++
		r := &fres{c: c, key: fmt.Sprintf("m%d", serial), cand: map[string]bool{}, busy: map[string]bool{}}
		mu.Lock()
		plan[r.key] = c
		mu.Unlock()
		return r
	}
	probe := func() error { // every node answers every node
		for _, from := range up() {
			for _, to := range up() {
				r := newRes(fcall{From: from, How: "probe-" + ndn(to), Do: "ok"})
				for try := 0; ; try++ {
					issue(r, 0)
					if r.err == nil && r.body == "re "+r.key {
						break
					}
					if r.took > 4*time.Second && try < 2 {
						continue // a very busy machine
					}
					return fmt.Errorf("a call from %s to %s fails: %v, response %q", ndn(from), ndn(to), r.err, r.body)
				}
			}
		}
		return nil
	}
	describe := func(r *fres) string {
		var s []string
		for k, ok := range r.cand {
			s = append(s, fmt.Sprintf("%s:%v", k, ok))
		}
		sort.Strings(s)
		return fmt.Sprintf("%+v, reachable %v: error %v, response %q after %v", r.c, s, r.err, r.body, r.took)
	}
	for si, s := range sc.Steps {
		switch s.Op {
		case "stop":
			if len(up()) < 2 || stopped[s.Node] {
				continue
			}
			nodes[s.Node].Exit()
			stopped[s.Node] = true
			for id, p := range at {
				if p.node == s.Node {
					at[id] = spot{node: -1}
				}
			}
			lab["node stopped"] = true
		case "reg":
			if at[s.ID].node >= 0 || at[s.ID].bad != "" || stopped[s.Node] {
				continue
			}
			if _, err := nodes[s.Node].Reg(tyn(sc.IDs[s.ID]), idn(s.ID)); err != nil {
				return hx.Fail("registering %s: %v", idn(s.ID), err)
			}
			at[s.ID] = spot{node: s.Node}
		case "unreg":
			if at[s.ID].node < 0 {
				continue
			}
			if err := nodes[at[s.ID].node].Sys.Unregister(idn(s.ID), tyn(sc.IDs[s.ID])); err != nil {
				return hx.Fail("removing %s: %v", idn(s.ID), err)
			}
			at[s.ID] = spot{node: -1}
		case "stale":
			if at[s.ID].node >= 0 || at[s.ID].bad != "" || stopped[s.Node] {
				continue
			}
			ab := addressbook.New(core.AddressInfo{Node: ndn(s.Node), Ip: "127.0.0.1", Port: ports[s.Node]})
			hb.Must(ab.Register(ctx, tyn(sc.IDs[s.ID]), idn(s.ID), 1))
			at[s.ID] = spot{node: -1, bad: "stale"}
		case "peer":
			if at[s.ID].node >= 0 || at[s.ID].bad != "" {
				continue
			}
			port := hb.FreePorts(1)[0]
			name := fmt.Sprintf("peer%d", si)
			switch s.Mode {
			case "refuse":
			case "mute":
				l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
				hb.Must(err)
				closers = append(closers, func() { l.Close() })
			default:
				l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
				hb.Must(err)
				srv := grpc.NewServer()
				ct := &cutter{Listener: l}
				a := &acceptor{asked: func(key string) {
					mu.Lock()
					asked[key]++
					mu.Unlock()
				}}
				switch s.Mode {
				case "status":
					a.f = func(context.Context) (*router.RouteRes, error) { return nil, status.Error(codes.Code(s.Code), "no") }
				case "hang":
					a.f = func(ctx context.Context) (*router.RouteRes, error) { <-ctx.Done(); return nil, ctx.Err() }
				case "cut": // its connections end, it stays
					a.f = func(ctx context.Context) (*router.RouteRes, error) {
						ct.cut()
						<-ctx.Done()
						return nil, ctx.Err()
					}
				case "drop":
					a.f = func(ctx context.Context) (*router.RouteRes, error) {
						go srv.Stop()
						<-ctx.Done()
						return nil, ctx.Err()
					}
				}
				router.RegisterAcceptorServer(srv, a)
				go srv.Serve(ct)
				closers = append(closers, srv.Stop)
			}
			ab := addressbook.New(core.AddressInfo{Node: name, Ip: "127.0.0.1", Port: port})
			hb.Must(ab.Register(ctx, tyn(sc.IDs[s.ID]), idn(s.ID), 1))
			at[s.ID] = spot{node: -1, bad: s.Mode, port: port}
		case "revive": // a node comes up where nothing listened
			for id, p := range at {
				if at[s.ID].bad != "refuse" && p.bad == "refuse" {
					s.ID = id
				}
			}
			p := at[s.ID]
			if p.bad != "refuse" {
				continue
			}
			hb.Must(addressbook.New(core.AddressInfo{Node: "peer", Ip: "127.0.0.1", Port: p.port}).Unregister(ctx, idn(s.ID), 1))
			k := len(nodes)
			nodes = append(nodes, addNode(ndn(k), p.port))
			ports = append(ports, p.port)
			if _, err := nodes[k].Reg(tyn(sc.IDs[s.ID]), idn(s.ID)); err != nil {
				return hx.Fail("registering %s: %v", idn(s.ID), err)
			}
			at[s.ID] = spot{node: k}
			for _, from := range up() { // soon everybody reaches it
				var r *fres
				for t := time.Now(); time.Since(t) < 6*time.Second; time.Sleep(5 * time.Millisecond) {
					r = newRes(fcall{From: from, How: "id", ID: s.ID, Do: "ok"})
					issue(r, 0)
					if r.err == nil {
						break
					}
				}
				if r.err != nil || r.body != "re "+r.key {
					return hx.Fail("%s is up again at an address where nothing listened before, but a call from %s still fails: %v, response %q", idn(s.ID), ndn(from), r.err, r.body)
				}
			}
			lab["address revived"] = true
		case "garbage":
			if stopped[s.Node] {
				continue
			}
			cc, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", ports[s.Node]), grpc.WithTransportCredentials(insecure.NewCredentials()))
			hb.Must(err)
			for _, q := range []*router.RouteReq{{}, {Msg: &router.Message{}}, {Msg: &router.Message{Header: &router.Header{}}}, {Msg: &router.Message{Header: &router.Header{TargetActorID: "nobody", TargetActorType: "none", Event: "x"}}},
				{Msg: &router.Message{Header: &router.Header{TargetActorID: "?", TargetActorType: "none", Event: "x"}}}} {
				cctx, cancel := context.WithTimeout(ctx, 8*time.Second)
				_, err := router.NewAcceptorClient(cc).Routing(cctx, q)
				cancel()
				if err == nil {
					return hx.Fail("a request for nobody (%v) is answered without an error", q)
				}
			}
			cc.Close()
			lab["senseless requests"] = true
		case "calls":
			var rs []*fres
			var wg sync.WaitGroup
			stopping := -1
			if s.Stop && len(up()) > 1 && !stopped[s.Node] {
				stopping = s.Node
			}
			for ci, c := range s.Calls {
				if c.From >= len(nodes) || stopped[c.From] || c.From == stopping {
					c.From = -1
					for _, u := range up() {
						if u != stopping {
							c.From = u
						}
					}
				}
				if c.How != "id" { // somebody listening may never answer
					for id, p := range at {
						if sc.IDs[id] == c.Ty && (p.bad == "hang" || p.bad == "mute") && c.TO == 0 {
							c.TO = 15
						}
					}
				} else if b := at[c.ID].bad; c.TO == 0 && (b == "hang" || b == "mute") || c.TO > 100 && (b == "hang" || b == "mute") {
					c.TO = 15
				}
				if c.TO > 100 {
					for _, p := range at {
						if p.bad == "hang" || p.bad == "mute" {
							c.TO = 15
						}
					}
				}
				r := newRes(c)
				for id, p := range at {
					if c.How == "id" && id != c.ID || c.How != "id" && sc.IDs[id] != c.Ty || p.node < 0 && p.bad == "" {
						continue
					}
					r.cand[idn(id)] = p.node >= 0
					if p.node >= 0 && p.node == stopping {
						r.shaky = true
					}
				}
				if c.How == "local" {
					here := map[string]bool{}
					for id, p := range at {
						if sc.IDs[id] == c.Ty && p.node == c.From {
							here[idn(id)] = true
						}
					}
					if len(here) > 0 {
						r.cand, r.shaky = here, false
					}
				}
				rs = append(rs, r)
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(c.Delay) * 100 * time.Microsecond)
					issue(r, ci)
				}()
			}
			if stopping >= 0 {
				time.Sleep(time.Duration(s.At) * 100 * time.Microsecond)
				nodes[stopping].Exit()
				stopped[stopping] = true
				for id, p := range at {
					if p.node == stopping {
						at[id] = spot{node: -1}
					}
				}
				lab["node stopped during calls"] = true
			}
			wg.Wait()
			// a stuck or slow handler keeps the ones behind it waiting
			slow := false
			for _, r := range rs {
				slow = slow || r.c.Do == "stuck"
				if r.c.Do == "slow" && r.c.TO > 0 {
					for id := range r.cand {
						occupied[id] = time.Now().Add(time.Duration(r.c.Dur) * time.Millisecond)
					}
				}
			}
			for _, r := range rs {
				c := r.c
				mu.Lock()
				runs, asks := len(ran[r.key]), asked[r.key]
				mu.Unlock()
				if r.never {
					return hx.Fail("a relay on %s could not be asked", ndn(c.From))
				}
				if runs > 1 {
					return hx.Fail("%s: handled %d times", describe(r), runs)
				}
				if asks > 1 || asks+runs > 1 {
					return hx.Fail("%s: handed over %d times", describe(r), asks+runs)
				}
				good, bad := 0, 0
				remote := false
				for id, ok := range r.cand {
					if ok {
						good++
					} else {
						bad++
					}
					for k, p := range at {
						remote = remote || idn(k) == id && p.node != c.From
					}
				}
				if c.Send {
					if good == 0 && r.err == nil {
						return hx.Fail("a message that could not be handed over: %s", describe(r))
					}
					if good > 0 && bad == 0 && !r.shaky && (c.TO == 0 || c.TO == 3000 && r.took < 2500*time.Millisecond) && !slow && r.err != nil {
						return hx.Fail("a message that could be handed over: %s", describe(r))
					}
					continue
				}
				if r.err == nil && c.Do != "panic" && c.Do != "err" && r.body != "re "+r.key {
					return hx.Fail("success with a wrong response: %s", describe(r))
				}
				if r.err == nil && runs == 0 {
					return hx.Fail("success without a handler: %s", describe(r))
				}
				if good == 0 && r.err == nil {
					return hx.Fail("success although nothing could be reached: %s", describe(r))
				}
				if r.err == nil && c.Do == "stuck" {
					return hx.Fail("success although the handling took too long: %s", describe(r))
				}
				mu.Lock()
				late := !r.gave.IsZero() && r.gave.Add(40*time.Millisecond).Before(slept[r.key])
				mu.Unlock()
				lab.Add(late, "the caller gave up long before the handler was through")
				if r.err == nil && late {
					return hx.Fail("success although the handling took longer than the caller waits: %s", describe(r))
				}
				if c.TO > 0 && r.took > time.Duration(c.TO)*time.Millisecond+3*time.Second {
					return hx.Fail("the caller gave up long ago: %s", describe(r))
				}
				if r.err != nil && good > 0 && bad == 0 && !r.shaky && c.TO == 0 && !slow {
					if r.took > 4*time.Second {
						return hx.Out{Infra: fmt.Errorf("%s", describe(r))}
					}
					return hx.Fail("failed although it could be reached: %s", describe(r))
				}
				if r.err != nil && good > 0 && bad == 0 && !r.shaky && c.TO == 3000 && !slow && r.took < 2500*time.Millisecond {
					return hx.Fail("failed although it could be reached: %s", describe(r))
				}
				switch {
				case r.err != nil && remote:
					failed, nt = true, true
					lab[fmt.Sprintf("failed: %s", c.Do)] = true
				case r.err == nil && remote:
					nt = nt || failed
					lab[fmt.Sprintf("reached: %s", c.Do)] = true
				}
				if c.How == "id" && at[c.ID].bad != "" {
					lab["target "+at[c.ID].bad] = true
				}
			}
			// a stale record is cleaned up by the call that found it
			for id, p := range at {
				if p.bad == "stale" {
					if _, err := addressbook.New(core.AddressInfo{Node: "observer"}).GetByID(ctx, idn(id)); err == addressbook.ErrUnknownActor {
						at[id] = spot{node: -1}
					}
				}
			}
			// let handlers that were given up end
			for _, t := range occupied {
				if d := time.Until(t); d > 0 {
					time.Sleep(d)
				}
			}
			if slow {
				time.Sleep(time.Second)
			}
		}
		if err := probe(); err != nil {
			return hx.Fail("after step %d (%s): %v", si, s.Op, err)
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}
