package sys

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// nstorm is a workload for real threads: goroutines that look actors up, list
// them and call them in tight loops while others register and remove actors
// of their own as fast as they can.
type nstorm struct {
	Stable  int      `json:"stable"`  // actors that stay
	Writers int      `json:"writers"` // each registers and removes ids of its own
	Own     int      `json:"own"`
	Rounds  int      `json:"rounds"`
	Readers []string `json:"readers"` // what each of them does
}

func genNstorm(rt *rapid.T) *nstorm {
	if rapid.IntRange(0, 127).Draw(rt, "storm") != 91 {
		return nil
	}
	s := &nstorm{Stable: rapid.IntRange(1, 6).Draw(rt, "stable"), Writers: rapid.IntRange(1, 4).Draw(rt, "writers"), Own: rapid.IntRange(1, 20).Draw(rt, "own"),
		Rounds: rapid.IntRange(100, 400).Draw(rt, "rounds")}
	for i := rapid.IntRange(1, 6).Draw(rt, "readers"); i > 0; i-- {
		s.Readers = append(s.Readers, rapid.SampledFrom([]string{"find", "find", "find-own", "list", "call", "call", "send", "local", "call-own", "call-own", "stale"}).Draw(rt, "reader"))
	}
	return s
}

func runNstorm(s *nstorm) hx.Out {
	ctx := context.Background()
	var first atomic.Pointer[error]
	bad := func(f string, a ...any) {
		err := fmt.Errorf(f, a...)
		first.CompareAndSwap(nil, &err)
	}
	var handled atomic.Int64
	w := hb.New(hb.Spec{Ty: "t", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			hb.Must(a.OnEvent("who", func(core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
					handled.Add(1)
					mw.Res.Body = []byte(a.Id)
					return nil
				}}
			}))
		})
	}})
	defer w.Close()
	n := w.Node("n", "127.0.0.1", 0)
	stable := map[string]core.IActor{}
	sid := func(i int) string { return fmt.Sprintf("stable%d", i%s.Stable) }
	oid := func(wr, i int) string { return fmt.Sprintf("own%d.%d", wr%s.Writers, i%s.Own) }
	for i := 0; i < s.Stable; i++ {
		a, err := n.Reg("t", sid(i))
		hb.Must(err)
		stable[sid(i)] = a
	}
	var stop atomic.Bool
	var wr, rd sync.WaitGroup
	for k := 0; k < s.Writers; k++ {
		wr.Add(1)
		go func() {
			defer wr.Done()
			here := make([]bool, s.Own)
			for r := 0; r < s.Rounds && first.Load() == nil; r++ {
				i := r * 7 % s.Own
				id := oid(k, i)
				if here[i] {
					if err := n.Sys.Unregister(id, "t"); err != nil {
						bad("%s could not be removed: %v", id, err)
					}
					if a, err := n.Sys.FindActor(ctx, id); err == nil {
						bad("%s was removed but is found: %v", id, a)
					}
				} else {
					a, err := n.Reg("t", id)
					if err != nil {
						bad("%s could not be registered: %v", id, err)
					}
					if b, err := n.Sys.FindActor(ctx, id); err != nil || b != a {
						bad("%s was registered but is not found: %v", id, err)
					}
				}
				here[i] = !here[i]
			}
		}()
	}
	var sent, calls atomic.Int64
	var slow atomic.Bool
	for k, do := range s.Readers {
		rd.Add(1)
		go func() {
			defer rd.Done()
			for r := k; !stop.Load() && first.Load() == nil; r++ {
				mw := func() *msg.Wrapper { return msg.NewBuilder(ctx).WithReqBody([]byte("x")).Build() }
				switch do {
				case "find":
					if a, err := n.Sys.FindActor(ctx, sid(r)); err != nil || a != stable[sid(r)] {
						bad("%s, which stays, is not found: %v", sid(r), err)
					}
				case "find-own":
					id := oid(r, r/7)
					if a, err := n.Sys.FindActor(ctx, id); (err == nil) != (a != nil) || err == nil && a.ID() != id {
						bad("looking up %s: %v %v", id, a, err)
					}
				case "list":
					seen := map[string]bool{}
					for _, a := range n.Sys.Actors() {
						if seen[a.ID()] {
							bad("%s is listed twice", a.ID())
						}
						seen[a.ID()] = true
					}
					for id := range stable {
						if !seen[id] {
							bad("%s, which stays, is not listed", id)
						}
					}
				case "call", "local":
					id := sid(r)
					if do == "local" {
						id = def.SymbolLocalFirst
					}
					m := mw()
					t0 := time.Now()
					err := n.Sys.Call(id, "t", "who", m)
					if time.Since(t0) > 4*time.Second {
						slow.Store(true) // a busy machine
						continue
					}
					calls.Add(1)
					if do == "call" && (err != nil || string(m.Res.Body) != id) {
						bad("a call to %s, which stays: %v %q", id, err, m.Res.Body)
					}
				case "call-own":
					id := oid(r, r/5)
					m := mw()
					if err := n.Sys.Call(id, "t", "who", m); err == nil && m.Err == nil && string(m.Res.Body) != id {
						bad("a call to %s was answered by %q", id, m.Res.Body)
					}
				case "stale":
					// another type lists an actor under this id, as a crash may have left it
					rec, _ := json.Marshal(core.AddressInfo{Node: "n", ActorId: oid(r, r/5), ActorTy: "u", Ip: "127.0.0.1"})
					w.Raw.SAdd(ctx, def.RedisAddressbookTyField+"u", rec)
					n.Sys.Call(def.SymbolWildcard, "u", "who", mw())
				case "send":
					if err := n.Sys.Send(sid(r), "t", "who", mw()); err != nil {
						bad("a message to %s, which stays: %v", sid(r), err)
					}
					if sent.Add(1)%64 == 0 {
						runtime.Gosched()
					}
				}
			}
		}()
	}
	wr.Wait()
	stop.Store(true)
	rd.Wait()
	if e := first.Load(); e != nil {
		return hx.Out{Err: fmt.Errorf("storm: %w", *e), NonTrivial: true}
	}
	l := hx.Labels{"storm": true}
	l.Add(slow.Load(), "storm-slow")
	return hx.Out{NonTrivial: true, Labels: l.List()}
}
