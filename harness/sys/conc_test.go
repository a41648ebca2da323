package sys

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S09

type cop struct {
	At int    `json:"at"` // units to wait before
	Do string `json:"do"`
	ID int    `json:"id"`
	Ty int    `json:"ty"`
}

type scnS09 struct {
	IDs     int     `json:"ids"`
	TyOf    []int   `json:"tyof"` // type of each id
	Unique  bool    `json:"unique"`
	Init    []int   `json:"init"` // units the initialisation of an actor takes, in turn
	Dur     int     `json:"dur"`  // units a handler takes
	Before  []int   `json:"before"`
	After   []int   `json:"after"` // units each store command is held up, in turn
	Workers [][]cop `json:"workers"`
	Exit    int     `json:"exit"` // units after the start, -1 never
	Storm   *nstorm `json:"storm,omitempty"`
}

func genS09(rt *rapid.T) scnS09 {
	sc := scnS09{IDs: rapid.IntRange(1, 4).Draw(rt, "ids"), Unique: rapid.IntRange(0, 3).Draw(rt, "unique") == 0,
		Dur: rapid.SampledFrom([]int{0, 0, 2, 10}).Draw(rt, "dur"), Exit: -1}
	for i := 0; i < sc.IDs; i++ {
		sc.TyOf = append(sc.TyOf, rapid.IntRange(0, 1).Draw(rt, "tyof"))
	}
	few := func(label string) []int {
		return rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 1, 3}), 1, 5).Draw(rt, label)
	}
	sc.Init, sc.Before, sc.After = few("init"), few("before"), few("after")
	kinds := []string{"reg", "reg", "reg", "unreg", "unreg", "call", "send", "any", "local", "find", "list", "byid", "bytype"}
	for i := rapid.IntRange(2, 6).Draw(rt, "workers"); i > 0; i-- {
		var ops []cop
		for k := rapid.IntRange(1, 8).Draw(rt, "ops"); k > 0; k-- {
			ops = append(ops, cop{At: rapid.IntRange(0, 4).Draw(rt, "at"), Do: rapid.SampledFrom(kinds).Draw(rt, "do"),
				ID: rapid.IntRange(0, sc.IDs-1).Draw(rt, "id"), Ty: rapid.IntRange(0, 1).Draw(rt, "ty")})
		}
		sc.Workers = append(sc.Workers, ops)
	}
	if rapid.IntRange(0, 3).Draw(rt, "ex") == 0 {
		sc.Exit = rapid.IntRange(0, 25).Draw(rt, "exit")
	}
	sc.Storm = genNstorm(rt)
	return sc
}

type chist struct {
	w     int
	op    cop
	t0    time.Duration
	t1    time.Duration
	err   error
	inst  int   // reg: the instance
	hits  []int // call, any, local: who handled it
	found []string
}

type cinst struct {
	id  int
	act core.IActor
	ok  bool
}

func TestS09(t *testing.T) {
	hx.Check(t, "S09", "two operations on one id, or an operation and the shutdown, overlapped", genS09, func(t *testing.T, sc scnS09) hx.Out {
		// in real time: a lock held across a store command would stop virtual time
		if sc.Storm != nil {
			return runNstorm(sc.Storm)
		}
		return runS09(sc)
	})
}

// regModel: an id is registered at most once at a time.
var regModel = porcupine.Model{
	Init: func() interface{} { return false },
	Step: func(state, in, out interface{}) (bool, interface{}) {
		here := state.(bool)
		switch in.(string) {
		case "reg":
			if !out.(bool) {
				return true, here
			}
			return !here, true
		case "unreg":
			return true, here && !out.(bool)
		}
		return out.(bool) == here, here
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

func runS09(sc scnS09) hx.Out {
	ctx := context.Background()
	var mu sync.Mutex
	var insts []*cinst
	byMsg := map[string][]int{}
	ms := func(n int) time.Duration { return time.Duration(n) * 300 * time.Microsecond }
	var specs []hb.Spec
	for ty := 0; ty < 2; ty++ {
		specs = append(specs, hb.Spec{Ty: tyn(ty), Weight: 3 + ty, Unique: sc.Unique && ty == 0, New: func(b core.IActorBuilder) core.IActor {
			mu.Lock()
			me := len(insts)
			in := &cinst{}
			fmt.Sscanf(b.GetID(), "id%d", &in.id)
			insts = append(insts, in)
			mu.Unlock()
			a := hb.With(b, func(a *hb.Act) {
				a.OnEvent("who", func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
						time.Sleep(ms(sc.Dur))
						mu.Lock()
						byMsg[string(mw.Req.Body)] = append(byMsg[string(mw.Req.Body)], me)
						mu.Unlock()
						return nil
					}}
				})
				time.Sleep(ms(sc.Init[me%len(sc.Init)]))
			})
			in.act = a
			return a
		}})
	}
	w := hb.New(specs...)
	defer w.Close()
	node := w.Node("n", "127.0.0.1", 0)
	k := 0
	hold := func(next func() error) error {
		mu.Lock()
		b, a := sc.Before[k%len(sc.Before)], sc.After[k%len(sc.After)]
		k++
		mu.Unlock()
		time.Sleep(ms(b))
		err := next()
		time.Sleep(ms(a))
		return err
	}
	w.Hook.Cmd = func(ctx context.Context, cmd redis.Cmder, next func() error) error { return hold(next) }
	w.Hook.Pipe = func(ctx context.Context, cmds []redis.Cmder, next func() error) error { return hold(next) }
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	var hist []*chist
	var wg sync.WaitGroup
	serial := 0
	sends := map[string]*chist{}
	exec := func(wk int, op cop) {
		h := &chist{w: wk, op: op, inst: -1}
		mu.Lock()
		hist = append(hist, h)
		serial++
		body := fmt.Sprint(serial)
		mu.Unlock()
		mw := msg.NewBuilder(ctx).WithReqBody([]byte(body)).Build()
		ty := tyn(sc.TyOf[op.ID])
		h.t0 = now()
		var a core.IActor
		var err error
		switch op.Do {
		case "reg":
			a, err = node.Reg(ty, idn(op.ID))
		case "unreg":
			err = node.Sys.Unregister(idn(op.ID), ty)
		case "call":
			err = node.Sys.Call(idn(op.ID), ty, "who", mw)
		case "any":
			err = node.Sys.Call(def.SymbolWildcard, tyn(op.Ty), "who", mw)
		case "local":
			err = node.Sys.Call(def.SymbolLocalFirst, tyn(op.Ty), "who", mw)
		case "send":
			err = node.Sys.Send(idn(op.ID), ty, "who", mw)
		case "find":
			a, err = node.Sys.FindActor(ctx, idn(op.ID))
		case "list":
			for _, x := range node.Sys.Actors() {
				h.found = append(h.found, x.ID())
			}
		case "byid":
			_, err = node.Sys.AddressBook().GetByID(ctx, idn(op.ID))
		case "bytype":
			var l []core.AddressInfo
			l, err = node.Sys.AddressBook().GetByType(ctx, tyn(op.Ty))
			for _, x := range l {
				h.found = append(h.found, x.ActorId)
			}
		}
		if err == nil && op.Do != "send" { // the caller may have been released without an answer
			err = mw.Err
		}
		h.t1 = now()
		h.err = err
		mu.Lock()
		if err == nil && a != nil {
			for i, in := range insts {
				if in.act == a {
					h.inst = i
					if op.Do == "reg" {
						in.ok = true
					}
				}
			}
		}
		h.hits = append([]int(nil), byMsg[body]...)
		if op.Do == "send" {
			sends[body] = h
		}
		mu.Unlock()
	}
	for wk, ops := range sc.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				time.Sleep(ms(op.At))
				exec(wk, op)
			}
		}()
	}
	exit0, exit1 := time.Duration(-1), time.Duration(-1)
	if sc.Exit >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(sc.Exit))
			e := now()
			node.Exit()
			exit0, exit1 = e, now()
		}()
	}
	wg.Wait()
	for i := 0; i < 300; i++ { // what was sent is handled
		mu.Lock()
		open := false
		for b, h := range sends {
			open = open || h.err == nil && len(byMsg[b]) == 0
		}
		mu.Unlock()
		if !open {
			break
		}
		time.Sleep(time.Millisecond)
	}
	w.Hook.Cmd, w.Hook.Pipe = nil, nil
	mu.Lock()
	for b, h := range sends {
		h.hits = append([]int(nil), byMsg[b]...)
	}
	mu.Unlock()
	down := sc.Exit >= 0

	// histories
	show := func(id int) string {
		var s []string
		for _, h := range hist {
			if h.op.ID == id && (h.op.Do == "reg" || h.op.Do == "unreg") {
				s = append(s, fmt.Sprintf("%s[%v,%v]=%v", h.op.Do, h.t0, h.t1, h.err))
			}
		}
		return strings.Join(s, " ")
	}
	l := hx.Labels{}
	nt := false
	for i, a := range hist {
		for _, b := range hist[:i] {
			if a.op.ID == b.op.ID && a.t0 <= b.t1 && b.t0 <= a.t1 && a.w != b.w {
				k := []string{a.op.Do, b.op.Do}
				sort.Strings(k)
				l[k[0]+" with "+k[1]] = true
				nt = true
			}
		}
		if down && a.t0 <= exit1 && exit0 <= a.t1 {
			l[a.op.Do+" with shutdown"] = true
			nt = true
		}
	}
	listed := map[string]bool{}
	if !down {
		for _, a := range node.Sys.Actors() {
			if listed[a.ID()] {
				return hx.Fail("%s is listed twice", a.ID())
			}
			listed[a.ID()] = true
		}
	}
	for id := 0; id < sc.IDs; id++ {
		var ops []porcupine.Operation
		for _, h := range hist {
			if h.op.ID == id && (h.op.Do == "reg" || h.op.Do == "unreg") {
				ops = append(ops, porcupine.Operation{ClientId: h.w, Input: h.op.Do, Output: h.err == nil, Call: int64(h.t0), Return: int64(h.t1)})
			}
		}
		if down { // the shutdown frees every id
			ops = append(ops, porcupine.Operation{ClientId: 90, Input: "unreg", Output: true, Call: int64(exit0), Return: int64(exit1)})
		} else {
			ops = append(ops, porcupine.Operation{ClientId: 91, Input: "read", Output: listed[idn(id)], Call: int64(now()) + 1, Return: int64(now()) + 2})
		}
		if !porcupine.CheckOperations(regModel, ops) {
			return hx.Fail("no order of its registrations and removals explains that %s is listed in the end: %v; %s", idn(id), listed[idn(id)], show(id))
		}
	}
	// an id registered before an operation began and not removed before it ended
	stable := func(id int, from, to time.Duration) int {
		at := -1
		for _, h := range hist {
			if h.op.ID == id && h.op.Do == "reg" && h.err == nil && h.t1 < from {
				at = h.inst
			}
		}
		var last time.Duration
		for _, h := range hist {
			if h.op.ID == id && h.op.Do == "reg" && h.inst == at {
				last = h.t0
			}
		}
		for _, h := range hist {
			if h.op.ID == id && h.op.Do == "unreg" && h.t1 >= last && h.t0 <= to {
				return -1
			}
		}
		if down && exit0 <= to {
			return -1
		}
		return at
	}
	for _, h := range hist {
		what := fmt.Sprintf("%s %s/%s at [%v,%v]: %v", h.op.Do, idn(h.op.ID), tyn(h.op.Ty), h.t0, h.t1, h.err)
		if len(h.hits) > 1 {
			return hx.Fail("%s: handled %d times", what, len(h.hits))
		}
		s := stable(h.op.ID, h.t0, h.t1)
		switch h.op.Do {
		case "call", "send":
			if s >= 0 && (h.err != nil || len(h.hits) != 1 || h.hits[0] != s) {
				return hx.Fail("%s: handled by %v, instance %d was there all the time; %s", what, h.hits, s, show(h.op.ID))
			}
			if len(h.hits) == 1 && insts[h.hits[0]].id != h.op.ID {
				return hx.Fail("%s: handled by %s", what, idn(insts[h.hits[0]].id))
			}
		case "any", "local":
			for id := 0; id < sc.IDs; id++ {
				if x := stable(id, h.t0, h.t1); x >= 0 && sc.TyOf[id] == h.op.Ty {
					s = x
				}
			}
			if (h.err == nil) != (len(h.hits) == 1) {
				return hx.Fail("%s: handled by %v", what, h.hits)
			}
			if len(h.hits) == 1 && sc.TyOf[insts[h.hits[0]].id] != h.op.Ty {
				return hx.Fail("%s: handled by %s", what, idn(insts[h.hits[0]].id))
			}
		case "find":
			if s >= 0 && h.inst != s {
				return hx.Fail("%s: instance %d was there all the time, found %d; %s", what, s, h.inst, show(h.op.ID))
			}
		case "byid":
			if s >= 0 && h.err != nil {
				return hx.Fail("%s: instance %d was there all the time; %s", what, s, show(h.op.ID))
			}
		case "list", "bytype":
			seen := map[string]int{}
			for _, f := range h.found {
				if seen[f]++; seen[f] > 1 {
					return hx.Fail("%s lists %s twice", what, f)
				}
			}
			for id := 0; id < sc.IDs; id++ {
				if stable(id, h.t0, h.t1) >= 0 && (h.op.Do == "list" || sc.TyOf[id] == h.op.Ty) && seen[idn(id)] != 1 {
					return hx.Fail("%s lists %v, %s was there all the time; %s", what, h.found, idn(id), show(id))
				}
			}
		}
	}
	// the dust has settled
	if sc.Unique && !down {
		n := 0
		for id := 0; id < sc.IDs; id++ {
			if listed[idn(id)] && sc.TyOf[id] == 0 {
				n++
			}
		}
		if n > 1 {
			return hx.Fail("%d actors of a type that is unique per node: %v", n, listed)
		}
	}
	obs := addressbook.New(core.AddressInfo{Node: "observer", Ip: "10.9.9.9"})
	load := 0
	want := [2][]string{}
	for id := 0; id < sc.IDs; id++ {
		r, err := obs.GetByID(ctx, idn(id))
		if listed[idn(id)] {
			load += 3 + sc.TyOf[id]
			want[sc.TyOf[id]] = append(want[sc.TyOf[id]], idn(id))
			if err != nil || r.Node != "n" {
				return hx.Fail("in the end %s is on the node, its record: %+v %v; %s", idn(id), r, err, show(id))
			}
			body := "last" + idn(id)
			cerr := node.Sys.Call(idn(id), tyn(sc.TyOf[id]), "who", msg.NewBuilder(ctx).WithReqBody([]byte(body)).Build())
			a, _ := node.Sys.FindActor(ctx, idn(id))
			mu.Lock()
			hits := byMsg[body]
			mu.Unlock()
			if cerr != nil || len(hits) != 1 || insts[hits[0]].act != a {
				return hx.Fail("in the end a call to %s: %v, handled by %v; %s", idn(id), cerr, hits, show(id))
			}
		} else if err != addressbook.ErrUnknownActor {
			return hx.Fail("in the end %s is not on the node, its record: %+v %v; %s", idn(id), r, err, show(id))
		}
	}
	for ty, ids := range want {
		var got []string
		rs, err := obs.GetByType(ctx, tyn(ty))
		for _, r := range rs {
			got = append(got, r.ActorId)
		}
		sort.Strings(got)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(ids) {
			return hx.Fail("in the end type %s lists %v %v, want %v", tyn(ty), got, err, ids)
		}
	}
	if ld, _ := w.Raw.HGet(ctx, "{node:n}", "total_weight").Int(); ld != load {
		return hx.Fail("in the end the load of the node is %d, its actors weigh %d", ld, load)
	}
	for i, in := range insts {
		a, _ := node.Sys.FindActor(ctx, idn(in.id))
		if in.act == nil || a == in.act && !down || !in.ok {
			continue
		}
		if err := in.act.Received(msg.NewBuilder(ctx).WithReqBody([]byte("zombie")).Build()); err == nil {
			return hx.Fail("instance %d of %s is not on the node any more but has not been shut down; %s", i, idn(in.id), show(in.id))
		}
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}
