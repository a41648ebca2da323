package sys

import (
	"context"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S07

type fstep struct {
	Do   string `json:"do"` // reg, unreg, exit, call, any, local, send, byid, bytype, count, low
	N    int    `json:"n"`
	Ty   int    `json:"ty"`
	ID   int    `json:"id"`
	K    int    `json:"k"`              // which store command fails, -1 none
	Long bool   `json:"long,omitempty"` // and all that follow
	Part int    `json:"part,omitempty"` // part: executed commands of a pipeline
	Ctx  bool   `json:"ctx,omitempty"`  // lost: reg: the caller's context ends at that command
	Heal string `json:"heal,omitempty"` // unreg, exit: what comes across the record left behind: "" the operation again, call, send
}

type scnS07 struct {
	How   string  `json:"how"` // lost: failed commands are not executed; late: they are, the reply is lost; part: pipelines break half-way
	Nodes int     `json:"nodes"`
	Limit []int   `json:"limit"` // of the types; type 0 is shared, type n+1 lives on node n only
	IDs   int     `json:"ids"`
	Steps []fstep `json:"steps"`
}

func genS07(rt *rapid.T) scnS07 {
	sc := scnS07{How: rapid.SampledFrom([]string{"lost", "lost", "late", "part"}).Draw(rt, "how"),
		Nodes: rapid.IntRange(1, 3).Draw(rt, "nodes"), IDs: rapid.IntRange(1, 6).Draw(rt, "ids")}
	for i := 0; i <= sc.Nodes; i++ {
		lim := 0
		if sc.How == "lost" {
			lim = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "limit")
		}
		sc.Limit = append(sc.Limit, lim)
	}
	for i := rapid.IntRange(2, 18).Draw(rt, "steps"); i > 0; i-- {
		s := fstep{Do: rapid.SampledFrom([]string{"reg", "reg", "reg", "reg", "unreg", "unreg", "exit", "call", "any", "local", "send", "byid", "bytype", "count", "low"}).Draw(rt, "do"),
			N: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "n"), ID: rapid.IntRange(0, sc.IDs-1).Draw(rt, "id"), K: -1}
		s.Ty = rapid.SampledFrom([]int{0, s.N + 1}).Draw(rt, "ty")
		if rapid.Bool().Draw(rt, "fault") {
			hi := 2
			if s.Do == "exit" {
				hi = 8
			}
			s.K = rapid.IntRange(0, hi).Draw(rt, "k")
			s.Long = rapid.Bool().Draw(rt, "long")
			if s.Do == "unreg" || s.Do == "exit" && sc.How != "part" {
				s.Heal = rapid.SampledFrom([]string{"", "", "call", "send"}).Draw(rt, "heal")
			}
			s.Ctx = s.Do == "reg" && sc.How == "lost" && rapid.Bool().Draw(rt, "ctx")
			if sc.How == "part" {
				s.Part = rapid.IntRange(0, 5).Draw(rt, "part")
			}
		}
		sc.Steps = append(sc.Steps, s)
	}
	return sc
}

func TestS07(t *testing.T) {
	hx.Check(t, "S07", "a store command of an operation failed", genS07, func(t *testing.T, sc scnS07) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runS07(sc) })
	})
}

type faultEnv struct {
	sc    scnS07
	w     *hb.World
	nod   []*hb.Nod
	live  map[int]rlive
	dirty map[int]bool // ids whose records are open until the operation is repeated
	was   map[int]int  // last type of an id
	made  int
	hits  []int

	cancel context.CancelFunc // of the running operation
}

func tyn(i int) string { return fmt.Sprintf("t%d", i) }
func idn(i int) string { return fmt.Sprintf("id%d", i) }

func (e *faultEnv) arm(s fstep) func() bool {
	n, fired := 0, false
	fail := func() bool {
		n++
		if s.Ctx && fired {
			return true
		}
		if n-1 == s.K || s.Long && n-1 > s.K {
			fired = true
			return true
		}
		return false
	}
	if s.K < 0 {
		return func() bool { return false }
	}
	e.w.Hook.Cmd = func(ctx context.Context, cmd redis.Cmder, next func() error) error {
		if !fail() {
			return next()
		}
		if e.sc.How == "late" {
			next()
		}
		if s.Ctx {
			e.cancel()
			return context.Canceled
		}
		return hb.ErrStore
	}
	e.w.Hook.Pipe = func(ctx context.Context, cmds []redis.Cmder, next func() error) error {
		if !fail() {
			return next()
		}
		switch e.sc.How {
		case "late":
			next()
		case "part":
			p := e.w.Raw.Pipeline()
			for i, c := range cmds {
				if i < s.Part {
					p.Do(ctx, c.Args()...)
				}
			}
			p.Exec(ctx)
		}
		err := hb.ErrStore
		if s.Ctx {
			e.cancel()
			err = context.Canceled
		}
		for _, c := range cmds {
			c.SetErr(err)
		}
		return err
	}
	return func() bool {
		e.w.Hook.Cmd, e.w.Hook.Pipe = nil, nil
		return fired
	}
}

// audit compares the registry with the model.
func (e *faultEnv) audit(l hx.Labels) error {
	ctx := context.Background()
	for n, x := range e.nod {
		var want, got []string
		tot := 0
		for id, v := range e.live {
			if v.node == n {
				want = append(want, idn(id))
				tot += 10 + v.ty
			}
		}
		for _, a := range x.Sys.Actors() {
			got = append(got, a.ID())
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			return fmt.Errorf("node %d has the actors %v, want %v", n, got, want)
		}
		if ld, _ := e.w.Raw.HGet(ctx, fmt.Sprintf("{node:n%d}", n), "total_weight").Int(); e.sc.How == "lost" && len(e.dirty) == 0 && ld != tot {
			return fmt.Errorf("node %d has the load %d, its actors weigh %d", n, ld, tot)
		}
		for id := 0; id < e.sc.IDs; id++ {
			v, ok := e.live[id]
			if e.dirty[id] {
				continue
			}
			info, err := x.Sys.AddressBook().GetByID(ctx, idn(id))
			if !ok && err != addressbook.ErrUnknownActor {
				return fmt.Errorf("node %d has an address for %s, which is not registered: %+v %v", n, idn(id), info, err)
			}
			if ok && (err != nil || info.Node != fmt.Sprintf("n%d", v.node) || info.Ip != ip(v.node) || info.ActorId != idn(id)) {
				return fmt.Errorf("node %d has for %s: %+v %v, it is on node %d", n, idn(id), info, err, v.node)
			}
		}
		for ty := range e.sc.Limit {
			l, err := x.Sys.AddressBook().GetByType(ctx, tyn(ty))
			if err != nil {
				return err
			}
			at := map[string]int{}
			for _, a := range l {
				at[a.ActorId+"@"+a.Node]++
			}
			for id, v := range e.live {
				if k := fmt.Sprintf("%s@n%d", idn(id), v.node); v.ty == ty && !e.dirty[id] {
					if at[k] != 1 {
						return fmt.Errorf("type %s does not list %s", tyn(ty), k)
					}
					delete(at, k)
				}
			}
			if len(at) > 0 && len(e.dirty) == 0 {
				return fmt.Errorf("type %s also lists %v", tyn(ty), at)
			}
		}
	}
	for id, v := range e.live {
		if e.dirty[id] {
			continue
		}
		e.hits = nil
		if err := e.nod[v.node].Sys.Call(idn(id), tyn(v.ty), "who", msg.NewBuilder(ctx).Build()); err != nil || fmt.Sprint(e.hits) != fmt.Sprint([]int{v.inst}) {
			return fmt.Errorf("a call to %s: %v, answered by %v, want %d", idn(id), err, e.hits, v.inst)
		}
	}
	return nil
}

// heal addresses an actor that is gone from the node it was on.
func (e *faultEnv) heal(s fstep, id int) error {
	e.hits = nil
	var err error
	mw := msg.NewBuilder(context.Background()).Build()
	if s.Heal == "call" {
		err = e.nod[s.N].Sys.Call(idn(id), tyn(e.was[id]), "who", mw)
	} else {
		err = e.nod[s.N].Sys.Send(idn(id), tyn(e.was[id]), "who", mw)
		time.Sleep(time.Millisecond)
	}
	if err == nil || len(e.hits) > 0 {
		return fmt.Errorf("a %s to %s, which is gone: %v, handled by %v", s.Heal, idn(id), err, e.hits)
	}
	return nil
}

func runS07(sc scnS07) hx.Out {
	ctx := context.Background()
	e := &faultEnv{sc: sc, live: map[int]rlive{}, dirty: map[int]bool{}, was: map[int]int{}}
	var specs []hb.Spec
	for i, lim := range sc.Limit {
		specs = append(specs, hb.Spec{Ty: tyn(i), Weight: 10 + i, Limit: lim, New: func(b core.IActorBuilder) core.IActor {
			me := e.made
			e.made++
			return hb.With(b, func(a *hb.Act) {
				a.OnEvent("who", func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { e.hits = append(e.hits, me); return nil }}
				})
			})
		}})
	}
	e.w = hb.New(specs...)
	defer e.w.Close()
	boot := func(n int) *hb.Nod { return e.w.Node(fmt.Sprintf("n%d", n), ip(n), 0) }
	for n := 0; n < sc.Nodes; n++ {
		e.nod = append(e.nod, boot(n))
	}
	l := hx.Labels{}
	for si, s := range sc.Steps {
		cur, held := e.live[s.ID]
		cnt := 0
		var ofType []int
		for id, v := range e.live {
			if v.ty == s.Ty {
				cnt++
				ofType = append(ofType, id)
			}
		}
		if s.Do == "reg" && held {
			continue
		}
		if held && s.Do != "exit" {
			s.N = cur.node
			if s.Do == "unreg" || s.Do == "call" || s.Do == "send" {
				s.Ty = cur.ty
			}
		}
		if s.Ty > 0 && (s.Do == "any" || s.Do == "local") {
			s.N = s.Ty - 1
		}
		nd := e.nod[s.N]
		bad := func(f string, a ...any) hx.Out {
			return hx.Fail("step %d (%s %s as %s on node %d): %s", si, s.Do, idn(s.ID), tyn(s.Ty), s.N, fmt.Sprintf(f, a...))
		}
		if (s.Do == "any" || s.Do == "local") && s.Ty == 0 {
			continue
		}
		do := func() error {
			mw := msg.NewBuilder(ctx).Build()
			switch s.Do {
			case "reg":
				var c context.Context
				c, e.cancel = context.WithCancel(ctx)
				defer e.cancel()
				_, err := nd.Sys.Loader(tyn(s.Ty)).WithID(idn(s.ID)).Register(c)
				return err
			case "unreg":
				return nd.Sys.Unregister(idn(s.ID), tyn(s.Ty))
			case "exit":
				nd.Exit()
			case "call":
				return nd.Sys.Call(idn(s.ID), tyn(s.Ty), "who", mw)
			case "send":
				err := nd.Sys.Send(idn(s.ID), tyn(s.Ty), "who", mw)
				time.Sleep(time.Millisecond)
				return err
			case "any":
				return nd.Sys.Call(def.SymbolWildcard, tyn(s.Ty), "who", mw)
			case "local":
				return nd.Sys.Call(def.SymbolLocalFirst, tyn(s.Ty), "who", mw)
			case "byid":
				a, err := nd.Sys.AddressBook().GetByID(ctx, idn(s.ID))
				if err == nil && (!held || a.Node != fmt.Sprintf("n%d", cur.node)) {
					return fmt.Errorf("wrong: %+v", a)
				}
				return err
			case "bytype":
				a, err := nd.Sys.AddressBook().GetByType(ctx, tyn(s.Ty))
				if err == nil && len(a) != cnt {
					return fmt.Errorf("wrong: %+v, there are %d", a, cnt)
				}
				return err
			case "count":
				c, err := nd.Sys.AddressBook().GetActorTypeCount(ctx, tyn(s.Ty))
				if err == nil && int(c) != cnt {
					return fmt.Errorf("wrong: %d, there are %d", c, cnt)
				}
				return err
			case "low":
				a, err := nd.Sys.AddressBook().GetLowWeightNodeForActor(ctx, tyn(s.Ty))
				if err == nil && a.Node == "" {
					return fmt.Errorf("wrong: no node")
				}
				return err
			}
			return nil
		}
		// what the operation has to do when the store works
		refused := ""
		switch {
		case s.Do == "reg" && sc.Limit[s.Ty] > 0 && cnt >= sc.Limit[s.Ty]:
			refused = "the limit is reached"
		case (s.Do == "call" || s.Do == "send" || s.Do == "byid") && !held:
			refused = "the id is unknown"
		case (s.Do == "any" || s.Do == "local") && cnt == 0:
			refused = "there is none of the type"
		case s.Do == "low":
			refused = "maybe"
		}
		inst := e.made
		e.hits = nil
		fired := e.arm(s)
		t0 := time.Now()
		err := do()
		f := fired()
		if d := time.Since(t0); d > 20*time.Second {
			return bad("took %v", d)
		}
		if err != nil && len(err.Error()) > 5 && err.Error()[:5] == "wrong" {
			return bad("%v", err)
		}
		l.Add(f, "failed: "+s.Do)
		l.Add(f && s.Ctx, "context over")
		l.Add(f && sc.How != "lost", sc.How)
		if !f && refused == "" && err != nil {
			return bad("the store did not fail: %v", err)
		}
		if refused != "" && refused != "maybe" && err == nil {
			return bad("succeeded although %s", refused)
		}
		hit := func() error {
			switch s.Do {
			case "call", "send":
				if (err == nil) != (fmt.Sprint(e.hits) == fmt.Sprint([]int{cur.inst})) || err != nil && len(e.hits) > 0 {
					return fmt.Errorf("result %v, handled by %v, want %d", err, e.hits, cur.inst)
				}
			case "any", "local":
				ok := len(e.hits) == 1
				if ok {
					ok = false
					for _, id := range ofType {
						ok = ok || e.live[id].inst == e.hits[0]
					}
				}
				if (err == nil) != ok || err != nil && len(e.hits) > 0 {
					return fmt.Errorf("result %v, handled by %v", err, e.hits)
				}
			}
			return nil
		}
		if herr := hit(); herr != nil {
			return bad("%v", herr)
		}
		again := f && err != nil
		switch s.Do {
		case "reg":
			if err == nil {
				e.live[s.ID] = rlive{s.N, s.Ty, inst}
				e.was[s.ID] = s.Ty
			} else if f && sc.How != "lost" {
				e.dirty[s.ID] = true
			}
		case "unreg":
			delete(e.live, s.ID)
			again = f
			if f {
				e.dirty[s.ID] = true
			}
		case "exit":
			again = f
			for id, v := range e.live {
				if v.node == s.N {
					delete(e.live, id)
					if f {
						e.dirty[id] = true
					}
				}
			}
		}
		if s.Do == "exit" {
			// the actors are down whatever the store did; the object still lists them
			e.nod[s.N] = boot(s.N)
			e.nod[s.N].Exit() // so that the audit sees a node without actors
			e.nod[s.N] = boot(s.N)
			if f {
				// the clean-up's lock may have been left behind
				e.w.MR.FastForward(11 * time.Second)
				time.Sleep(11 * time.Second)
			}
			if again && s.Heal != "" {
				for id := range e.dirty {
					if herr := e.heal(s, id); herr != nil {
						return bad("%v", herr)
					}
				}
				again = false
				l["healed"] = true
			}
			if again {
				nd.Gone = false
				nd.Exit()
			}
			e.dirty = map[int]bool{}
		} else {
			if aerr := e.audit(l); aerr != nil {
				return bad("%v (result of the operation: %v)", aerr, err)
			}
			if again && s.Heal != "" && s.Do == "unreg" {
				if herr := e.heal(s, s.ID); herr != nil {
					return bad("%v", herr)
				}
				delete(e.dirty, s.ID)
				again = false
				l["healed"] = true
			}
			if again {
				inst = e.made
				e.hits = nil
				err = do()
				if refused == "" && err != nil {
					return bad("repeated when the store works again: %v", err)
				}
				if refused != "" && refused != "maybe" && err == nil {
					return bad("repeated: succeeded although %s", refused)
				}
				if herr := hit(); herr != nil {
					return bad("repeated: %v", herr)
				}
				if s.Do == "reg" && err == nil {
					e.live[s.ID] = rlive{s.N, s.Ty, inst}
					e.was[s.ID] = s.Ty
				}
				delete(e.dirty, s.ID)
				l["repeated"] = true
			}
		}
		if aerr := e.audit(l); aerr != nil {
			return bad("in the end: %v", aerr)
		}
	}
	nt := false
	for k := range l {
		nt = nt || len(k) > 7 && k[:7] == "failed:"
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}
