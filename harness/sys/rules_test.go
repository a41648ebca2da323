package sys

import (
	"context"
	"fmt"
	"sort"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ S03

type rtype struct {
	Limit  int  `json:"limit"`
	Unique bool `json:"unique"`
	W      int  `json:"w"`
}

type scnS03 struct {
	Nodes int     `json:"nodes"`
	Types []rtype `json:"types"`
	IDs   int     `json:"ids"`
	Steps []bstep `json:"steps"`
	Style int     `json:"style,omitempty"` // of the names
}

func genS03(rt *rapid.T) scnS03 {
	sc := scnS03{Nodes: rapid.IntRange(1, 3).Draw(rt, "nodes"), IDs: rapid.IntRange(1, 9).Draw(rt, "ids")}
	for i := rapid.IntRange(1, 3).Draw(rt, "types"); i > 0; i-- {
		sc.Types = append(sc.Types, rtype{Limit: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 9, 1, 2, 3, 128, 200, 256, 65536, 1 << 32}).Draw(rt, "limit"),
			Unique: rapid.Bool().Draw(rt, "unique"), W: rapid.IntRange(0, 50).Draw(rt, "w")})
	}
	for i := rapid.IntRange(2, 25).Draw(rt, "steps"); i > 0; i-- {
		sc.Steps = append(sc.Steps, bstep{Do: rapid.SampledFrom([]string{"reg", "reg", "reg", "reg", "reg", "unreg", "unreg", "exit", "noid"}).Draw(rt, "do"),
			N: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "n"), Ty: rapid.IntRange(0, len(sc.Types)-1).Draw(rt, "ty"),
			ID: rapid.IntRange(0, sc.IDs-1).Draw(rt, "id")})
	}
	if rapid.IntRange(0, 2).Draw(rt, "styled") == 1 {
		sc.Style = rapid.IntRange(1, hb.Styles-1).Draw(rt, "style")
	}
	if rapid.IntRange(0, 63).Draw(rt, "crowded") == 37 {
		// a limit that takes many to reach
		sc.Types[0].Limit, sc.Types[0].Unique = rapid.SampledFrom([]int{0, 12, 30, 105}).Draw(rt, "climit"), false
		from := sc.IDs
		sc.IDs += max(sc.Types[0].Limit, 20)
		for i := from; i < sc.IDs; i++ {
			sc.Steps = append(sc.Steps, bstep{Do: "reg", N: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "cn"), Ty: 0, ID: i})
		}
		for i := rapid.IntRange(1, 8).Draw(rt, "csteps"); i > 0; i-- {
			sc.Steps = append(sc.Steps, bstep{Do: rapid.SampledFrom([]string{"reg", "reg", "unreg"}).Draw(rt, "cdo"),
				N: rapid.IntRange(0, sc.Nodes-1).Draw(rt, "cn"), ID: rapid.IntRange(0, sc.IDs-1).Draw(rt, "cid")})
		}
	}
	return sc
}

type rlive struct {
	node, ty, inst int
}

func TestS03(t *testing.T) {
	hx.Check(t, "S03", "a registration was refused because of a rule, or a freed place was used again", genS03, func(t *testing.T, sc scnS03) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runS03(sc) })
	})
}

func runS03(sc scnS03) hx.Out {
	ctx := context.Background()
	made, hit := 0, -1
	var specs []hb.Spec
	tyName := func(i int) string { return hb.Styled(sc.Style, "t", i) }
	for i, ty := range sc.Types {
		specs = append(specs, hb.Spec{Ty: tyName(i), Weight: ty.W, Limit: ty.Limit, Unique: ty.Unique,
			New: func(b core.IActorBuilder) core.IActor {
				me := made
				made++
				return hb.With(b, func(a *hb.Act) {
					a.OnEvent("who", func(core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { hit = me; return nil }}
					})
				})
			}})
	}
	w := hb.New(specs...)
	defer w.Close()
	nod := make([]*hb.Nod, sc.Nodes)
	for n := range nod {
		nod[n] = w.Node(fmt.Sprintf("n%d", n), ip(n), 0)
	}
	live := map[int]rlive{}
	freed := map[string]bool{}
	l := hx.Labels{}
	idName := func(i int) string { return hb.Styled(sc.Style, "id", i) }
	for si, s := range sc.Steps {
		bad := func(f string, a ...any) hx.Out {
			return hx.Fail("step %d (%s %s as %s on node %d): %s", si, s.Do, idName(s.ID), tyName(s.Ty), s.N, fmt.Sprintf(f, a...))
		}
		cur, held := live[s.ID]
		ty := sc.Types[s.Ty]
		switch s.Do {
		case "reg":
			if held && cur.node != s.N {
				continue
			}
			cnt, here := 0, 0
			for _, v := range live {
				if v.ty == s.Ty {
					cnt++
					if v.node == s.N {
						here++
					}
				}
			}
			why := ""
			switch {
			case held:
				why = "the node holds the id"
			case ty.Unique && here > 0:
				why = "the type is unique per node"
			case ty.Limit > 0 && cnt >= ty.Limit:
				why = "the type's limit is reached"
			}
			inst := made
			a, err := nod[s.N].Reg(tyName(s.Ty), idName(s.ID))
			if why != "" {
				l["refused: "+why] = true
				if err == nil {
					return bad("accepted although %s", why)
				}
				break
			}
			if err != nil {
				return bad("refused: %v", err)
			}
			if a == nil || a.ID() != idName(s.ID) || a.Type() != tyName(s.Ty) {
				return bad("another actor was handed out")
			}
			live[s.ID] = rlive{s.N, s.Ty, inst}
			l.Add(freed[fmt.Sprint("id", s.ID)], "freed id used again")
			l.Add(ty.Limit > 0 && cnt == ty.Limit-1 && freed[fmt.Sprint("ty", s.Ty)], "freed place used again")
			l.Add(ty.Unique && freed[fmt.Sprint("ty", s.Ty, s.N)], "freed unique place used again")
		case "noid":
			if _, err := nod[s.N].Sys.Loader(tyName(s.Ty)).Register(ctx); err == nil {
				return bad("an actor without an id was accepted")
			}
		case "unreg":
			if !held {
				nod[s.N].Sys.Unregister(idName(s.ID), tyName(s.Ty))
				break
			}
			if err := nod[cur.node].Sys.Unregister(idName(s.ID), tyName(cur.ty)); err != nil {
				return bad("%v", err)
			}
			delete(live, s.ID)
			freed[fmt.Sprint("id", s.ID)], freed[fmt.Sprint("ty", cur.ty)], freed[fmt.Sprint("ty", cur.ty, cur.node)] = true, true, true
		case "exit":
			nod[s.N].Exit()
			nod[s.N] = w.Node(fmt.Sprintf("n%d", s.N), ip(s.N), 0)
			for id, v := range live {
				if v.node == s.N {
					delete(live, id)
					freed[fmt.Sprint("id", id)], freed[fmt.Sprint("ty", v.ty)], freed[fmt.Sprint("ty", v.ty, v.node)] = true, true, true
				}
			}
		}
		// the whole registry agrees with the model
		for n, x := range nod {
			var want, got []string
			tot := 0
			for id, v := range live {
				if v.node == n {
					want = append(want, idName(id)+"/"+tyName(v.ty))
					tot += sc.Types[v.ty].W
				}
			}
			for _, a := range x.Sys.Actors() {
				got = append(got, a.ID()+"/"+a.Type())
			}
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				return bad("node %d has the actors %v, want %v", n, got, want)
			}
			if ld, _ := w.Raw.HGet(ctx, fmt.Sprintf("{node:n%d}", n), "total_weight").Int(); ld != tot {
				return bad("node %d has the load %d, its actors weigh %d", n, ld, tot)
			}
			for ty := range sc.Types {
				cnt := 0
				for _, v := range live {
					if v.ty == ty {
						cnt++
					}
				}
				if c, err := x.Sys.AddressBook().GetActorTypeCount(ctx, tyName(ty)); err != nil || int(c) != cnt {
					return bad("node %d counts %d actors of type %s (%v), want %d", n, c, tyName(ty), err, cnt)
				}
			}
		}
		for id := 0; id < sc.IDs; id++ {
			v, ok := live[id]
			for n, x := range nod {
				a, err := x.Sys.FindActor(ctx, idName(id))
				if (ok && v.node == n) != (err == nil && a != nil) {
					return bad("node %d finds actor %s: %v %v; it is registered: %v", n, idName(id), a != nil, err, ok)
				}
				info, err := x.Sys.AddressBook().GetByID(ctx, idName(id))
				if !ok {
					if err != addressbook.ErrUnknownActor {
						return bad("node %d has an address for %s: %+v %v", n, idName(id), info, err)
					}
				} else if err != nil || info.Node != fmt.Sprintf("n%d", v.node) {
					return bad("node %d has for %s: %+v %v, it is on node %d", n, idName(id), info, err, v.node)
				}
			}
			if ok {
				hit = -1
				if err := nod[v.node].Sys.Call(idName(id), tyName(v.ty), "who", msg.NewBuilder(ctx).Build()); err != nil || hit != v.inst {
					return bad("a call to %s: %v, answered by instance %d, want %d", idName(id), err, hit, v.inst)
				}
			}
		}
	}
	return hx.Out{NonTrivial: len(l) > 0, Labels: l.List()}
}
