package sys

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S08

// Node 0 has been restarted after a crash, perhaps under a new name, at the
// address it had. Node 1 is another node.
type sstep struct {
	Do  string `json:"do"` // stale, reg, unreg, call, send, any, local, anysend, localsend
	N   int    `json:"n,omitempty"`
	Old int    `json:"old,omitempty"` // stale: 0 the record names the node as it is called now, 1 and 2 earlier names
	Ty  int    `json:"ty"`            // the type; for call and send: the type the caller names
	ID  int    `json:"id"`
}

type scnS08 struct {
	IDs   int     `json:"ids"`
	Steps []sstep `json:"steps"`
}

const unknownTy = 2 // no node knows it

func genS08(rt *rapid.T) scnS08 {
	sc := scnS08{IDs: rapid.IntRange(1, 7).Draw(rt, "ids")}
	add := func(do string) {
		sc.Steps = append(sc.Steps, sstep{Do: do, N: rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "n"), Old: rapid.IntRange(0, 2).Draw(rt, "old"),
			Ty: rapid.IntRange(0, 2).Draw(rt, "ty"), ID: rapid.IntRange(0, sc.IDs-1).Draw(rt, "id")})
	}
	for i := rapid.IntRange(1, 5).Draw(rt, "before"); i > 0; i-- {
		add("stale")
	}
	for i := rapid.IntRange(1, 20).Draw(rt, "steps"); i > 0; i-- {
		add(rapid.SampledFrom([]string{"stale", "reg", "reg", "unreg", "call", "call", "send", "any", "any", "local", "anysend", "localsend"}).Draw(rt, "do"))
	}
	return sc
}

type srec struct { // a record of an actor that is not there
	old, ty int
}

func TestS08(t *testing.T) {
	hx.Check(t, "S08", "a stale record was come across by a call or send", genS08, func(t *testing.T, sc scnS08) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runS08(sc) })
	})
}

func runS08(sc scnS08) hx.Out {
	ctx := context.Background()
	made := 0
	var hits []int
	wt := []int{3, 5, 0}
	var specs []hb.Spec
	for ty := 0; ty < 2; ty++ {
		specs = append(specs, hb.Spec{Ty: tyn(ty), Weight: wt[ty], New: func(b core.IActorBuilder) core.IActor {
			me := made
			made++
			return hb.With(b, func(a *hb.Act) {
				a.OnEvent("who", func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { hits = append(hits, me); return nil }}
				})
			})
		}})
	}
	w := hb.New(specs...)
	defer w.Close()
	// a call to the other node fails at once: nothing listens there
	addr := func(n int) string { return fmt.Sprintf("127.0.0.%d", n+1) }
	nod := []*hb.Nod{w.Node("n0", addr(0), 0), w.Node("n1", addr(1), 0)}
	names := []string{"n0", "n0-earlier", "n0-first"}
	var old []*addressbook.AddressBook
	for range names {
		old = append(old, nil)
	}

	live := map[int]rlive{}         // by id
	stale := map[int]srec{}         // id records of actors that are not there
	entry := map[int]map[int]srec{} // id -> type entries of actors that are not there, by old name
	seenID := map[int]bool{}        // ids whose stale record has been come across
	load := map[string]int{}        // expected, by node name
	skew := map[string]bool{}       // load not determined
	l := hx.Labels{}
	nt := false
	for i := 0; i < sc.IDs; i++ {
		entry[i] = map[int]srec{}
	}
	typeList := func(ty int) map[string]int {
		r := map[string]int{}
		as, _ := nod[1].Sys.AddressBook().GetByType(ctx, tyn(ty))
		for _, a := range as {
			r[a.ActorId+"@"+a.Node]++
		}
		return r
	}
	for si, s := range sc.Steps {
		bad := func(f string, a ...any) hx.Out {
			return hx.Fail("step %d (%s %s as %s on node %d): %s", si, s.Do, idn(s.ID), tyn(s.Ty), s.N, fmt.Sprintf(f, a...))
		}
		cur, alive := live[s.ID]
		rec, isStale := stale[s.ID]
		switch s.Do {
		case "stale":
			if alive || isStale || len(entry[s.ID]) > 0 {
				continue
			}
			old[s.Old] = addressbook.New(core.AddressInfo{Node: names[s.Old], Ip: addr(0), Port: 0})
			if err := old[s.Old].Register(ctx, tyn(s.Ty), idn(s.ID), wt[s.Ty]); err != nil {
				return hx.Out{Infra: err}
			}
			stale[s.ID] = srec{s.Old, s.Ty}
			entry[s.ID][s.Old] = srec{s.Old, s.Ty}
			load[names[s.Old]] += wt[s.Ty]
		case "reg":
			if alive || s.Ty == unknownTy {
				continue
			}
			inst := made
			if _, err := nod[s.N].Reg(tyn(s.Ty), idn(s.ID)); err != nil {
				return bad("%v", err)
			}
			live[s.ID] = rlive{s.N, s.Ty, inst}
			load[fmt.Sprintf("n%d", s.N)] += wt[s.Ty]
			delete(stale, s.ID) // its id record now belongs to the new actor
			if e, ok := entry[s.ID][0]; ok && s.N == 0 && e.ty == s.Ty {
				delete(entry[s.ID], 0) // its type entry too
				skew["n0"] = true
			}
			l.Add(isStale, "registered over a stale record")
		case "unreg":
			if !alive {
				continue
			}
			if err := nod[cur.node].Sys.Unregister(idn(s.ID), tyn(cur.ty)); err != nil {
				return bad("%v", err)
			}
			delete(live, s.ID)
			load[fmt.Sprintf("n%d", cur.node)] -= wt[cur.ty]
		case "call", "send":
			n := 0
			if alive {
				n = cur.node
			}
			hits = nil
			var err error
			if s.Do == "call" {
				err = nod[n].Sys.Call(idn(s.ID), tyn(s.Ty), "who", msg.NewBuilder(ctx).Build())
			} else {
				err = nod[n].Sys.Send(idn(s.ID), tyn(s.Ty), "who", msg.NewBuilder(ctx).Build())
				time.Sleep(time.Millisecond)
			}
			if alive {
				if err != nil || len(hits) != 1 || hits[0] != cur.inst {
					return bad("%v, handled by %v, want %d", err, hits, cur.inst)
				}
				break
			}
			if err == nil || len(hits) > 0 {
				return bad("%v, handled by %v, but nobody has the id", err, hits)
			}
			if isStale {
				l["healed by "+s.Do] = true
				l.Add(rec.ty == unknownTy, "of an unknown type")
				l.Add(rec.ty != s.Ty, "under another type")
				nt = true
				delete(stale, s.ID)
				delete(entry[s.ID], rec.old)
				load[names[rec.old]] -= wt[rec.ty]
			}
			if a, err := nod[0].Sys.AddressBook().GetByID(ctx, idn(s.ID)); !errors.Is(err, addressbook.ErrUnknownActor) {
				return bad("the stale record is still there: %+v %v", a, err)
			}
		case "any", "local", "anysend", "localsend":
			sym := def.SymbolWildcard
			if s.Do[0] == 'l' {
				sym = def.SymbolLocalFirst
			}
			before := typeList(s.Ty)
			hits = nil
			var err error
			if s.Do == "any" || s.Do == "local" {
				err = nod[0].Sys.Call(sym, tyn(s.Ty), "who", msg.NewBuilder(ctx).Build())
			} else {
				err = nod[0].Sys.Send(sym, tyn(s.Ty), "who", msg.NewBuilder(ctx).Build())
				time.Sleep(time.Millisecond)
			}
			here, there := 0, 0
			for _, v := range live {
				if v.ty == s.Ty && v.node == 0 {
					here++
				} else if v.ty == s.Ty {
					there++
				}
			}
			if err == nil {
				ok := len(hits) == 1
				for _, v := range live {
					ok = ok && (v.inst != hits[0] || v.node == 0)
				}
				if !ok {
					return bad("succeeded, handled by %v", hits)
				}
				break
			}
			if len(hits) > 0 || here > 0 && sym == def.SymbolLocalFirst {
				return bad("%v, handled by %v; there are %d actors of the type on the node", err, hits, here)
			}
			after := typeList(s.Ty)
			var gone []string
			for k, c := range before {
				if after[k] < c {
					gone = append(gone, k)
				}
			}
			if len(gone) == 0 {
				if there == 0 && len(before) > 0 {
					return bad("%v, and the stale record is still there: %v", err, before)
				}
				break
			}
			found := false
			for id, es := range entry {
				for o, e := range es {
					if e.ty == s.Ty && len(gone) == 1 && gone[0] == idn(id)+"@"+names[o] {
						found = true
						delete(es, o)
						load[names[o]] -= wt[s.Ty]
						if r, ok := stale[id]; ok && r.old == o {
							delete(stale, id)
							if a, err := nod[0].Sys.AddressBook().GetByID(ctx, idn(id)); !errors.Is(err, addressbook.ErrUnknownActor) {
								return bad("the stale record is still there: %+v %v", a, err)
							}
						}
					}
				}
			}
			if !found {
				return bad("%v, and the records of %v have been removed", err, gone)
			}
			l["healed by "+s.Do] = true
			nt = true
		}
		// the live actors are unaffected
		for id, v := range live {
			for n := range nod {
				a, err := nod[n].Sys.AddressBook().GetByID(ctx, idn(id))
				if err != nil || a.Node != fmt.Sprintf("n%d", v.node) || a.Ip != addr(v.node) {
					return bad("node %d looks up the live actor %s: %+v %v, it is on node %d", n, idn(id), a, err, v.node)
				}
			}
			if c := typeList(v.ty)[fmt.Sprintf("%s@n%d", idn(id), v.node)]; c != 1 {
				return bad("the live actor %s is listed %d times under its type", idn(id), c)
			}
			hits = nil
			if err := nod[v.node].Sys.Call(idn(id), tyn(v.ty), "who", msg.NewBuilder(ctx).Build()); err != nil || len(hits) != 1 || hits[0] != v.inst {
				return bad("a call to the live actor %s: %v, handled by %v", idn(id), err, hits)
			}
		}
		for ty := 0; ty < 3; ty++ {
			for k := range typeList(ty) {
				ok := false
				for id, v := range live {
					ok = ok || v.ty == ty && k == fmt.Sprintf("%s@n%d", idn(id), v.node)
				}
				for id, es := range entry {
					for o, e := range es {
						ok = ok || e.ty == ty && k == idn(id)+"@"+names[o]
					}
				}
				if !ok {
					return bad("type %s lists %s, which is not there", tyn(ty), k)
				}
			}
		}
		for _, n := range append([]string{"n1"}, names...) {
			if ld, _ := w.Raw.HGet(ctx, "{node:"+n+"}", "total_weight").Int(); !skew[n] && ld != load[n] {
				return bad("node %s has the load %d, want %d", n, ld, load[n])
			}
		}
	}
	_ = seenID
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}
