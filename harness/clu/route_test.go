// Package clu checks what crosses nodes, with real listeners on the loopback
// interface.
package clu

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	hb.Store()
	if os.Getenv("VH_VERBOSE") == "" { // the client prints every failure
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
	os.Exit(m.Run())
}

// ------------------------------------------------------------------ S04

const layers = 3 // a hop only goes to a later layer, so that nobody waits for himself

type hop struct {
	How  string `json:"how"` // id, any, local
	ID   int    `json:"id"`
	Ty   int    `json:"ty"`            // type within the layer
	Send bool   `json:"send"`          // instead of Call
	Odd  int    `json:"odd,omitempty"` // by id, the type given is 1 another one, 2 none
	New  bool   `json:"new"`           // with a message of its own
	Body []byte `json:"body,omitempty"`
}

type ask struct {
	Node   int    `json:"node"`
	Body   []byte `json:"body"`
	Custom []byte `json:"custom"`
	Token  string `json:"token"`
	Org    int    `json:"org"`             // -1 none, -2 a name of nobody, -3 a type alone, else an id
	Stale  []byte `json:"stale,omitempty"` // the message has this response before the call
	Stamp  int64  `json:"stamp"`
	Hops   []hop  `json:"hops"`
	RBody  []byte `json:"rbody"`
	RCust  []byte `json:"rcust"`
	RTok   string `json:"rtok"`
	RNew   bool   `json:"rnew"` // the response header is replaced
}

type place struct {
	ID   int `json:"id"`
	Node int `json:"node"` // -1: removed
}

// same: a number of equal requests at the same time
type same struct {
	Node int `json:"node"`
	ID   int `json:"id"`
	N    int `json:"n"`
	Hold int `json:"hold"` // ms
	took time.Duration
}

type round struct {
	Places []place `json:"places"`
	Asks   []ask   `json:"asks"`
	Same   *same   `json:"same,omitempty"`
}

type scnS04 struct {
	Nodes  int     `json:"nodes"`
	Mute   bool    `json:"mute"` // the last node does not listen
	Types  int     `json:"types"`
	Weight []int   `json:"weight"`
	IDs    []int   `json:"ids"` // the type of each id, over all layers
	Rounds []round `json:"rounds"`
	Style  int     `json:"style,omitempty"` // of the names
	Crowd  int     `json:"crowd,omitempty"` // other actors on each node
}

func bytesGen(rt *rapid.T, l string) []byte {
	return rapid.OneOf(rapid.Just([]byte(nil)), rapid.SliceOfN(rapid.Byte(), 0, 12), rapid.Custom(func(rt *rapid.T) []byte {
		return bytes.Repeat([]byte{rapid.Byte().Draw(rt, "b")}, rapid.SampledFrom([]int{100, 5000, 70000}).Draw(rt, "len"))
	})).Draw(rt, l)
}

func genS04(rt *rapid.T) scnS04 {
	sc := scnS04{Nodes: rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4}).Draw(rt, "nodes"), Types: rapid.IntRange(1, 2).Draw(rt, "types")}
	sc.Mute = sc.Nodes > 1 && rapid.IntRange(0, 4).Draw(rt, "mute") == 0
	for i := 0; i < sc.Types*layers; i++ {
		sc.Weight = append(sc.Weight, rapid.SampledFrom([]int{0, 1, 1, 5}).Draw(rt, "weight"))
	}
	n := rapid.IntRange(1, 9).Draw(rt, "nids")
	if rapid.IntRange(0, 20).Draw(rt, "many") == 0 {
		n = 24
	}
	for i := 0; i < n; i++ {
		ty := rapid.IntRange(0, sc.Types*layers-1).Draw(rt, "ty")
		if n == 24 && i > 4 {
			ty = 0
		}
		sc.IDs = append(sc.IDs, ty)
	}
	hosts := sc.Nodes
	if sc.Mute {
		hosts--
	}
	for r := rapid.IntRange(1, 3).Draw(rt, "rounds"); r > 0; r-- {
		var rd round
		for i := range sc.IDs {
			switch at := rapid.IntRange(-1, hosts*2-1).Draw(rt, "at"); {
			case at < hosts && at >= 0:
				rd.Places = append(rd.Places, place{i, at})
			case at == -1:
				rd.Places = append(rd.Places, place{i, -1})
			case len(sc.Rounds) == 0:
				rd.Places = append(rd.Places, place{i, at % hosts})
			}
		}
		for k := rapid.IntRange(1, 8).Draw(rt, "asks"); k > 0; k-- {
			a := ask{Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "node"), Body: bytesGen(rt, "body"), Custom: bytesGen(rt, "custom"),
				Token: rapid.StringN(0, 6, -1).Draw(rt, "token"), Org: rapid.SampledFrom([]int{-1, -1, -1, -2, -3, 0}).Draw(rt, "org"),
				Stamp: rapid.Int64().Draw(rt, "stamp"), RBody: bytesGen(rt, "rbody"), RCust: bytesGen(rt, "rcust"),
				RTok: rapid.StringN(0, 6, -1).Draw(rt, "rtok"), RNew: rapid.Bool().Draw(rt, "rnew")}
			if rapid.IntRange(0, 2).Draw(rt, "again") == 0 {
				a.Stale = append([]byte("stale "), bytesGen(rt, "stale")...)
			}
			if a.Org == 0 {
				a.Org = rapid.IntRange(0, n-1).Draw(rt, "orgid")
			}
			for h := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(rt, "hops"); h > 0; h-- {
				x := hop{How: rapid.SampledFrom([]string{"id", "any", "local"}).Draw(rt, "how"), ID: rapid.IntRange(0, n-1).Draw(rt, "id"),
					Ty: rapid.IntRange(0, sc.Types-1).Draw(rt, "hty"), Send: rapid.IntRange(0, 4).Draw(rt, "send") == 0}
				if rapid.IntRange(0, 4).Draw(rt, "odd") == 0 {
					x.Odd = rapid.IntRange(1, 2).Draw(rt, "oddty")
				}
				if len(a.Hops) > 0 && rapid.IntRange(0, 2).Draw(rt, "new") == 0 {
					x.New, x.Body = true, bytesGen(rt, "hbody")
				}
				a.Hops = append(a.Hops, x)
			}
			rd.Asks = append(rd.Asks, a)
		}
		if rapid.IntRange(0, 5).Draw(rt, "equal") == 3 {
			rd.Same = &same{Node: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "enode"), ID: rapid.IntRange(0, n-1).Draw(rt, "eid"),
				N: rapid.IntRange(2, 12).Draw(rt, "en"), Hold: rapid.IntRange(0, 4).Draw(rt, "ehold")}
		}
		sc.Rounds = append(sc.Rounds, rd)
	}
	sc.Style = genStyle(rt)
	if rapid.IntRange(0, 63).Draw(rt, "crowded") == 37 {
		sc.Crowd = rapid.SampledFrom([]int{30, 70, 120}).Draw(rt, "crowd")
	}
	return sc
}

type seen struct {
	hop  int
	node string
	id   string
	h    *router.Header
	body []byte
}

// state of one ask
type live struct {
	a     *ask
	from  string
	logs  []seen
	errs  map[int]error // of the call to a hop
	res   *router.Message
	mid   []string // what was wrong with a response in between
	where map[int]place
	wait  time.Duration
}

// style of the names in the running scenario
var style int

func genStyle(rt *rapid.T) int {
	if rapid.IntRange(0, 2).Draw(rt, "styled") != 1 {
		return 0
	}
	return rapid.IntRange(1, hb.Styles-1).Draw(rt, "style")
}

func idn(i int) string { return hb.Styled(style, "id", i) }
func ndn(i int) string { return fmt.Sprintf("node%d", i) }
func tyn(i int) string { return hb.Styled(style, "ty", i) }
func clip(b []byte) string {
	if len(b) > 20 {
		return fmt.Sprintf("%q... (%d)", b[:20], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func TestS04(t *testing.T) {
	hx.Check(t, "S04", "a message crossed from one node to another, or had a choice of actors", genS04, func(t *testing.T, sc scnS04) hx.Out { return runS04(sc) })
}

func runS04(sc scnS04) hx.Out {
	style = sc.Style
	ctx := context.Background()
	var mu sync.Mutex
	lives := map[string]*live{}
	hopTy := func(k int, h hop) int {
		if h.How == "id" {
			return sc.IDs[h.ID]
		}
		return k*sc.Types + h.Ty
	}
	// the type given with the call
	sayTy := func(k int, h hop) string {
		switch {
		case h.How == "id" && h.Odd == 1:
			return "other"
		case h.How == "id" && h.Odd == 2:
			return ""
		}
		return tyn(hopTy(k, h))
	}
	issue := func(l *live, k int, m *msg.Wrapper, call, send func(id, ty, ev string, m *msg.Wrapper) error) {
		h := l.a.Hops[k]
		id := idn(h.ID)
		switch h.How {
		case "any":
			id = def.SymbolWildcard
		case "local":
			id = def.SymbolLocalFirst
		}
		var err error
		if h.Send {
			err = send(id, sayTy(k, h), fmt.Sprintf("h%d", k), m)
		} else {
			err = call(id, sayTy(k, h), fmt.Sprintf("h%d", k), m)
		}
		mu.Lock()
		l.errs[k] = err
		mu.Unlock()
	}
	var specs []hb.Spec
	for ty := 0; ty < sc.Types*layers; ty++ {
		specs = append(specs, hb.Spec{Ty: tyn(ty), Weight: sc.Weight[ty], New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) {
				count := 0
				a.OnEvent("same", func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
						count++
						time.Sleep(time.Duration(mw.Req.Body[0]) * time.Millisecond)
						mw.Res.Body = []byte(fmt.Sprint(count))
						return nil
					}}
				})
				for k := 0; k < layers; k++ {
					a.OnEvent(fmt.Sprintf("h%d", k), func(ac core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
							key, _, _ := strings.Cut(mw.Req.Header.Token, "|")
							mu.Lock()
							l := lives[key]
							if l == nil {
								lives["?"] = &live{mid: []string{fmt.Sprintf("%s received an unknown token %q", ac.ID(), mw.Req.Header.Token)}}
								mu.Unlock()
								return nil
							}
							hd := mw.Req.Header
							l.logs = append(l.logs, seen{hop: k, node: nodeOf(a.B.GetSystem()), id: ac.ID(), body: append([]byte(nil), mw.Req.Body...),
								h: &router.Header{ID: hd.ID, Event: hd.Event, OrgActorID: hd.OrgActorID, OrgActorType: hd.OrgActorType, Token: hd.Token, Timestamp: hd.Timestamp,
									TargetActorID: hd.TargetActorID, TargetActorType: hd.TargetActorType, Custom: append([]byte(nil), hd.Custom...)}})
							mu.Unlock()
							if k+1 == len(l.a.Hops) {
								reply(l.a, mw)
								return nil
							}
							m := mw
							if n := l.a.Hops[k+1]; n.New {
								m = msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: "new", Token: mw.Req.Header.Token, Custom: l.a.Custom, Timestamp: l.a.Stamp}).WithReqBody(n.Body).Build()
							}
							issue(l, k+1, m, ac.Call, ac.Send)
							mu.Lock()
							ok := m != mw && answered(l.a, k+1)
							for i := k + 1; i < len(l.a.Hops); i++ {
								ok = ok && l.errs[i] == nil
							}
							mu.Unlock()
							if ok {
								if w := wrongReply(l.a, m.Res); w != "" {
									mu.Lock()
									l.mid = append(l.mid, fmt.Sprintf("at %s: %s", ac.ID(), w))
									mu.Unlock()
								}
								reply(l.a, mw)
							}
							return nil
						}}
					})
				}
			})
		}})
	}
	w := hb.New(specs...)
	defer w.Close()
	ports := hb.FreePorts(sc.Nodes)
	if sc.Mute {
		ports[sc.Nodes-1] = 0
	}
	w.Fac.Add(hb.Spec{Ty: "crowd"})
	var nodes []*hb.Nod
	for i := 0; i < sc.Nodes; i++ {
		n := w.Node(ndn(i), "127.0.0.1", ports[i])
		nodes = append(nodes, n)
		setNode(n.Sys, ndn(i))
		for k := 0; k < sc.Crowd; k++ {
			if _, err := n.Reg("crowd", fmt.Sprintf("crowd %d %d", i, k)); err != nil {
				return hx.Fail("registering an actor of a crowd: %v", err)
			}
		}
	}
	defer clearNodes()
	at := map[int]int{}
	lab := hx.Labels{}
	nt := false
	serial := 0
	var all []*live
	for _, rd := range sc.Rounds {
		for _, p := range rd.Places {
			old, on := at[p.ID]
			if on {
				if err := nodes[old].Sys.Unregister(idn(p.ID), tyn(sc.IDs[p.ID])); err != nil {
					return hx.Fail("removing %s: %v", idn(p.ID), err)
				}
				delete(at, p.ID)
			}
			if p.Node >= 0 {
				if _, err := nodes[p.Node].Reg(tyn(sc.IDs[p.ID]), idn(p.ID)); err != nil {
					return hx.Fail("registering %s on %s: %v", idn(p.ID), ndn(p.Node), err)
				}
				at[p.ID] = p.Node
			}
		}
		where := map[int]place{}
		for id, n := range at {
			where[id] = place{id, n}
		}
		var wg sync.WaitGroup
		var these []*live
		for i := range rd.Asks {
			a := &rd.Asks[i]
			for k := range a.Hops { // an id is in its layer
				if h := &a.Hops[k]; h.How == "id" && sc.IDs[h.ID]/sc.Types != k {
					h.How = "any"
				}
			}
			serial++
			key := fmt.Sprintf("k%d", serial)
			l := &live{a: a, from: ndn(a.Node), errs: map[int]error{}, where: where}
			these = append(these, l)
			mu.Lock()
			lives[key] = l
			mu.Unlock()
			hd := &router.Header{ID: "req" + key, Token: key + "|" + a.Token, Custom: a.Custom, Timestamp: a.Stamp}
			if a.Org == -2 {
				hd.OrgActorID, hd.OrgActorType = "nobody", "ty0"
			} else if a.Org == -3 {
				hd.OrgActorType = "ty0"
			} else if a.Org >= 0 {
				hd.OrgActorID, hd.OrgActorType = idn(a.Org), tyn(sc.IDs[a.Org])
			}
			m := msg.NewBuilder(ctx).WithReqHeader(hd).WithReqBody(a.Body).Build()
			if a.Stale != nil {
				m.Res.Body, m.Res.Header.Token, m.Res.Header.Custom = a.Stale, "stale", a.Stale
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := time.Now()
				issue(l, 0, m, nodes[a.Node].Sys.Call, nodes[a.Node].Sys.Send)
				l.wait = time.Since(t)
				l.res = m.Res
			}()
		}
		wg.Wait()
		for i := 0; i < 2000; i++ { // what was sent may still be under way
			mu.Lock()
			open := false
			for _, l := range these {
				open = open || !l.settled()
			}
			mu.Unlock()
			if !open {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if n, on := at[max(rd.sameID(), 0)]; on && rd.Same != nil {
			if err := rd.Same.run(nodes[rd.Same.Node].Sys, tyn(sc.IDs[rd.Same.ID])); err != nil {
				if rd.Same.took > 4*time.Second {
					return hx.Out{Infra: err}
				}
				return hx.Out{Err: err}
			}
			if n != rd.Same.Node {
				nt = true
				lab["equal requests at the same time across nodes"] = true
			}
		}
		all = append(all, these...)
		for _, l := range these {
			if l.wait > 4*time.Second {
				return hx.Out{Infra: fmt.Errorf("a call took %v", l.wait)}
			}
		}
		mu.Lock()
		for _, l := range these {
			if err := l.judge(sc, hopTy, sayTy, lab, &nt); err != nil {
				mu.Unlock()
				return hx.Out{Err: err}
			}
		}
		mu.Unlock()
	}
	for _, n := range nodes {
		n.Exit()
	}
	mu.Lock()
	defer mu.Unlock()
	if l := lives["?"]; l != nil {
		return hx.Fail("%s", l.mid[0])
	}
	for _, l := range all { // nothing came late
		if err := l.judge(sc, hopTy, sayTy, lab, &nt); err != nil {
			return hx.Out{Err: err}
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}

func (r round) sameID() int {
	if r.Same == nil {
		return -1
	}
	return r.Same.ID
}

// run makes the requests: each is handled by itself, one after another, so that each answer is another.
func (e *same) run(sys core.ISystem, ty string) error {
	var wg sync.WaitGroup
	got, errs := make([]string, e.N), make([]error, e.N)
	t0 := time.Now()
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{}).WithReqBody([]byte{byte(e.Hold)}).Build()
			if errs[i] = sys.Call(idn(e.ID), ty, "same", m); errs[i] == nil && m.Err == nil {
				got[i] = string(m.Res.Body)
			}
		}()
	}
	wg.Wait()
	e.took = time.Since(t0)
	by := map[string]int{}
	for i, g := range got {
		if errs[i] != nil {
			return fmt.Errorf("%+v: request %d of %d equal ones failed: %v", *e, i, e.N, errs[i])
		}
		if j, ok := by[g]; ok {
			return fmt.Errorf("%+v: requests %d and %d of %d equal ones have the same answer %q", *e, i, j, e.N, g)
		}
		by[g] = i
	}
	return nil
}

var (
	nodeMu sync.Mutex
	nodeBy = map[core.ISystem]string{}
)

func setNode(s core.ISystem, n string) {
	nodeMu.Lock()
	nodeBy[s] = n
	nodeMu.Unlock()
}
func nodeOf(s core.ISystem) string {
	nodeMu.Lock()
	defer nodeMu.Unlock()
	return nodeBy[s]
}
func clearNodes() {
	nodeMu.Lock()
	nodeBy = map[core.ISystem]string{}
	nodeMu.Unlock()
}

func reply(a *ask, mw *msg.Wrapper) {
	if a.RNew {
		mw.ToBuilder().WithResHeader(&router.Header{Event: "reply", Token: a.RTok, Custom: a.RCust}).WithResBody(a.RBody)
		return
	}
	mw.Res.Body = a.RBody
	mw.Res.Header.Event, mw.Res.Header.Token, mw.Res.Header.Custom = "reply", a.RTok, a.RCust
}

// answered: the answer of the last hop comes back to the caller of hop k.
func answered(a *ask, k int) bool {
	for i := k; i < len(a.Hops); i++ {
		if a.Hops[i].Send {
			return false
		}
	}
	return true
}

func wrongReply(a *ask, r *router.Message) string {
	if r == nil || r.Header == nil {
		return fmt.Sprintf("the response is %v", r)
	}
	if !bytes.Equal(r.Body, a.RBody) || r.Header.Event != "reply" || r.Header.Token != a.RTok || !bytes.Equal(r.Header.Custom, a.RCust) {
		return fmt.Sprintf("the response is %s %q %q custom %s, written was %s %q custom %s", clip(r.Body), r.Header.Event, r.Header.Token, clip(r.Header.Custom),
			clip(a.RBody), a.RTok, clip(a.RCust))
	}
	if h := r.Header; h.OrgActorID+h.OrgActorType+h.PrevActorType+h.TargetActorID+h.TargetActorType != "" {
		return fmt.Sprintf("the response has header fields that nobody wrote: %v", h)
	}
	return ""
}

// settled: every hop that was issued has ended in an error or a handler run.
func (l *live) settled() bool {
	for k := range l.a.Hops {
		err, done := l.errs[k]
		if done && err != nil {
			return true
		}
		ran := false
		for _, s := range l.logs {
			ran = ran || s.hop == k
		}
		if !done || !ran {
			return false
		}
	}
	return true
}

func (l *live) judge(sc scnS04, hopTy func(int, hop) int, sayTy func(int, hop) string, lab hx.Labels, nt *bool) error {
	a := l.a
	from, org, orgTy := l.from, "", ""
	if a.Org >= 0 {
		org, orgTy = idn(a.Org), tyn(sc.IDs[a.Org])
	} else if a.Org == -2 {
		org, orgTy = "nobody", "ty0"
	} else if a.Org == -3 {
		orgTy = "ty0"
	}
	body := a.Body
	what := func(k int) string {
		return fmt.Sprintf("hop %d (%+v) from %s of a message to %s", k, a.Hops[k], from, l.show())
	}
	failed := false
	lastID, lastTy := "", 0
	for k, h := range a.Hops {
		var runs []seen
		for _, s := range l.logs {
			if s.hop == k {
				runs = append(runs, s)
			}
		}
		if failed {
			if len(runs) != 0 {
				return fmt.Errorf("%s: ran although the hop before failed", what(k))
			}
			continue
		}
		if k > 0 {
			if h.New {
				org, orgTy, body = "", "", h.Body
			}
			if !h.Send && org == "" {
				org, orgTy = lastID, tyn(lastTy)
			}
		}
		// who may get it
		cand := map[string]string{}
		local := map[string]string{}
		for id, p := range l.where {
			if h.How == "id" && id != h.ID || h.How != "id" && sc.IDs[id] != hopTy(k, h) {
				continue
			}
			cand[idn(id)] = ndn(p.Node)
			if ndn(p.Node) == from {
				local[idn(id)] = from
			}
		}
		if h.How == "local" && len(local) > 0 {
			lab["local first with a local one"] = true
			cand = local
		}
		if len(cand) > 1 {
			*nt = true
			lab["choice of actors"] = true
		}
		err, done := l.errs[k]
		if !done {
			return fmt.Errorf("%s: neither carried out nor refused", what(k))
		}
		if err != nil {
			if len(runs) > 0 {
				return fmt.Errorf("%s: error %v, but it ran on %s", what(k), err, runs[0].node)
			}
			if _, self := cand[org]; len(cand) > 0 && !self {
				return fmt.Errorf("%s: %v, although %v could be reached", what(k), err, keys(cand))
			}
			lab["refused"] = true
			failed = true
			continue
		}
		if len(runs) != 1 {
			return fmt.Errorf("%s: handled %d times: %+v", what(k), len(runs), runs)
		}
		r := runs[0]
		if cand[r.id] != r.node || r.node == "" {
			return fmt.Errorf("%s: handled by %s on %s, possible were %v", what(k), r.id, r.node, cand)
		}
		if r.id == org {
			return fmt.Errorf("%s: handled by %s, where it came from", what(k), org)
		}
		kind := "local"
		if r.node != from {
			*nt = true
			kind = "remote"
		}
		how := "call"
		if h.Send {
			how = "send"
		}
		lab[fmt.Sprintf("%s %s %s", kind, how, h.How)] = true
		lab[fmt.Sprintf("hop %d %s", k, kind)] = true
		if r.h.Event != fmt.Sprintf("h%d", k) || !bytes.Equal(r.body, body) || r.h.OrgActorID != org || !bytes.Equal(r.h.Custom, a.Custom) ||
			!strings.HasSuffix(r.h.Token, "|"+a.Token) || r.h.Timestamp != a.Stamp || r.h.TargetActorType != sayTy(k, h) || r.h.OrgActorType != orgTy {
			return fmt.Errorf("%s: the handler saw event %q body %s origin %q %q custom %s token %q timestamp %d target type %q; sent was body %s origin %q %q custom %s token %q timestamp %d", what(k),
				r.h.Event, clip(r.body), r.h.OrgActorID, r.h.OrgActorType, clip(r.h.Custom), r.h.Token, r.h.Timestamp, r.h.TargetActorType, clip(body), org, orgTy, clip(a.Custom), a.Token, a.Stamp)
		}
		from, lastID = r.node, r.id
		for id, ty := range sc.IDs {
			if idn(id) == r.id {
				lastTy = ty
			}
		}
	}
	if len(l.mid) > 0 {
		return fmt.Errorf("message to %s: %s", l.show(), l.mid[0])
	}
	if !failed && answered(a, 0) {
		if w := wrongReply(a, l.res); w != "" {
			return fmt.Errorf("message from %s to %s: %s", l.from, l.show(), w)
		}
		lab["response compared"] = true
	}
	return nil
}

func (l *live) show() string {
	var s []string
	for _, h := range l.a.Hops {
		s = append(s, fmt.Sprintf("%s/%d/%d", h.How, h.ID, h.Ty))
	}
	var p []string
	for id, x := range l.where {
		p = append(p, fmt.Sprintf("%s@%s", idn(id), ndn(x.Node)))
	}
	sort.Strings(p)
	return fmt.Sprintf("%s, actors %v", strings.Join(s, ">"), p)
}

func keys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
