package sys

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	hb.Store()
	os.Exit(m.Run())
}

// ------------------------------------------------------------------ S01, S02

type bstep struct {
	Do string `json:"do"` // reg, unreg, clear, rm (another node's book removes), bad
	N  int    `json:"n"`
	Ty int    `json:"ty"`
	ID int    `json:"id"`
	W  int    `json:"w"`
	Q  bool   `json:"q,omitempty"` // not compared with the model before the next step
}

type scnBook struct {
	Mode  string   `json:"mode"` // book, sys
	Nodes []string `json:"nodes"`
	Types []string `json:"types"`
	IDs   []string `json:"ids"`
	W     []int    `json:"w"` // sys: weight per type
	Steps []bstep  `json:"steps"`
	Same  bool     `json:"same,omitempty"` // the nodes have one address, as nodes without a listener may
}

var (
	nodeNames = []string{"n", "n1", "n2", "node-1", "节点", "a b", "x:y", "{z", "q}", "total_weight", "actor:t"}
	typeNames = []string{"t", "t1", "user", "total_weight", "actor:t", "类型", "a b", "x:y", "<&>", "."}
	idNames   = []string{"a", "a1", "b", "id", "总", "x y", "x:y", "\"q\"", "<a>", "{b}", "12", "?x", "~x", "a\\", "#", " "}
)

func pick(rt *rapid.T, from []string, n int, label string) []string {
	return rapid.Permutation(from).Draw(rt, label)[:n]
}

func genBook(rt *rapid.T, loads bool) scnBook {
	sc := scnBook{Mode: rapid.SampledFrom([]string{"book", "book", "sys"}).Draw(rt, "mode"),
		Nodes: pick(rt, nodeNames, rapid.IntRange(1, 4).Draw(rt, "nn"), "nodes"),
		Types: pick(rt, typeNames, rapid.IntRange(1, 3).Draw(rt, "nt"), "types"), Same: rapid.IntRange(0, 3).Draw(rt, "same") == 2}
	ni := rapid.IntRange(1, 6).Draw(rt, "ni")
	max := 22
	if rapid.IntRange(0, 9).Draw(rt, "many") == 0 {
		ni = len(idNames)
		max = 45
	}
	sc.IDs = pick(rt, idNames, ni, "ids")
	weight := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 100), rapid.IntRange(0, 1<<40))
	for range sc.Types {
		sc.W = append(sc.W, weight.Draw(rt, "tw"))
	}
	kinds := []string{"reg", "reg", "reg", "reg", "unreg", "unreg", "clear", "bad", "crash", "topic"}
	if loads && sc.Mode == "book" {
		kinds = append(kinds, "rm")
	}
	for i := rapid.IntRange(1, max).Draw(rt, "steps"); i > 0; i-- {
		sc.Steps = append(sc.Steps, bstep{Do: rapid.SampledFrom(kinds).Draw(rt, "do"),
			N: rapid.IntRange(0, len(sc.Nodes)-1).Draw(rt, "n"), Ty: rapid.IntRange(0, len(sc.Types)-1).Draw(rt, "ty"),
			ID: rapid.IntRange(0, ni-1).Draw(rt, "id"), W: weight.Draw(rt, "w")})
	}
	if rapid.IntRange(0, 127).Draw(rt, "crowded") == 73 {
		// a crowd of actors comes, most of it on one node, and part of it goes
		k := rapid.SampledFrom([]int{30, 110, 300, 1100}).Draw(rt, "crowd")
		n, ty := rapid.IntRange(0, len(sc.Nodes)-1).Draw(rt, "cn"), rapid.IntRange(0, len(sc.Types)-1).Draw(rt, "cty")
		for i := 0; i < k; i++ {
			sc.IDs = append(sc.IDs, fmt.Sprintf("crowd%d", i))
			o := bstep{Do: "reg", N: n, Ty: ty, ID: ni + i, W: 1, Q: i < k-1}
			if i%10 == 3 {
				o.N = (n + 1) % len(sc.Nodes)
			}
			sc.Steps = append(sc.Steps, o)
		}
		switch rapid.IntRange(0, 2).Draw(rt, "then") {
		case 0:
			for i := 0; i < k; i += rapid.IntRange(1, 3).Draw(rt, "each") {
				sc.Steps = append(sc.Steps, bstep{Do: "unreg", N: n, Ty: ty, ID: ni + i, Q: true})
			}
		case 1:
			sc.Steps = append(sc.Steps, bstep{Do: "clear", N: n})
		}
		sc.Steps = append(sc.Steps, bstep{Do: "bad"})
	}
	return sc
}

type ment struct {
	node, ty, w int
}

type bookEnv struct {
	sc   scnBook
	w    *hb.World
	bk   []*addressbook.AddressBook
	nod  []*hb.Nod
	m    map[int]ment
	gone map[int]bool // ids whose owner does not know of their removal
	left map[int]bool // ids an earlier run of their node has left behind
	seen map[int]bool // nodes that have registered something since their last clear
	load map[int]map[int]int
}

func ip(n int) string { return fmt.Sprintf("10.1.2.%d", n+1) }

// ip and port of a node.
func (e *bookEnv) ip(n int) string {
	if e.sc.Same {
		n = 0
	}
	return ip(n)
}

func (e *bookEnv) port(n int) int {
	if e.sc.Same {
		n = 0
	}
	return 7000 + n
}

func (e *bookEnv) ab(n int) *addressbook.AddressBook {
	if e.sc.Mode == "sys" {
		return e.nod[n].Sys.AddressBook().(*addressbook.AddressBook)
	}
	return e.bk[n]
}

func (e *bookEnv) boot(n int) {
	if e.sc.Mode == "sys" {
		e.nod[n] = e.w.Node(e.sc.Nodes[n], e.ip(n), 0)
	} else {
		e.bk[n] = addressbook.New(core.AddressInfo{Node: e.sc.Nodes[n], Ip: e.ip(n), Port: e.port(n)})
	}
}

func (e *bookEnv) addr(id int) core.AddressInfo {
	m := e.m[id]
	a := core.AddressInfo{Node: e.sc.Nodes[m.node], Ip: e.ip(m.node), ActorId: e.sc.IDs[id], ActorTy: e.sc.Types[m.ty]}
	if e.sc.Mode == "book" {
		a.Port = e.port(m.node)
	}
	return a
}

// lookups compares what every book answers with the model.
func (e *bookEnv) lookups() error {
	ctx := context.Background()
	for n := range e.sc.Nodes {
		ab := e.ab(n)
		for id, name := range e.sc.IDs {
			if e.gone[id] {
				continue
			}
			got, err := ab.GetByID(ctx, name)
			_, ok := e.m[id]
			if !ok {
				if !errors.Is(err, addressbook.ErrUnknownActor) {
					return fmt.Errorf("node %q knows id %q, which is registered nowhere: %+v, %v", e.sc.Nodes[n], name, got, err)
				}
				continue
			}
			want := e.addr(id)
			if err != nil || got.Node != want.Node || got.Ip != want.Ip || got.Port != want.Port || got.ActorId != name {
				return fmt.Errorf("node %q looks up id %q: %+v, %v, want %+v", e.sc.Nodes[n], name, got, err, want)
			}
		}
		for ty, name := range e.sc.Types {
			var want []string
			for id, m := range e.m {
				if m.ty == ty {
					want = append(want, fmt.Sprintf("%+v", e.addr(id)))
				}
			}
			l, err := ab.GetByType(ctx, name)
			if err != nil {
				return fmt.Errorf("node %q looks up type %q: %v", e.sc.Nodes[n], name, err)
			}
			var got []string
			for _, a := range l {
				got = append(got, fmt.Sprintf("%+v", a))
			}
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				return fmt.Errorf("node %q finds for type %q %v, want %v", e.sc.Nodes[n], name, got, want)
			}
			if c, err := ab.GetActorTypeCount(ctx, name); err != nil || int(c) != len(want) {
				return fmt.Errorf("node %q counts %d of type %q (%v), want %d", e.sc.Nodes[n], c, name, err, len(want))
			}
		}
	}
	return nil
}

// loads compares the recorded loads with the model.
func (e *bookEnv) loads() error {
	for n, name := range e.sc.Nodes {
		tot, per := 0, map[string]int{}
		for _, m := range e.m {
			if m.node == n {
				tot += m.w
				per["actor:"+e.sc.Types[m.ty]] += m.w
			}
		}
		got := map[string]int{}
		for f, v := range e.w.Raw.HGetAll(context.Background(), "{node:"+name+"}").Val() {
			var x int
			if _, err := fmt.Sscan(v, &x); err != nil {
				return fmt.Errorf("load of node %q: %s = %q", name, f, v)
			}
			got[f] = x
		}
		if got["total_weight"] != tot {
			return fmt.Errorf("recorded load of node %q is %d, its actors weigh %d", name, got["total_weight"], tot)
		}
		delete(got, "total_weight")
		for f := range per {
			if _, ok := got[f]; !ok {
				got[f] = 0
			}
		}
		for f, v := range got {
			if v != per[f] {
				return fmt.Errorf("recorded load of node %q for %q is %d, its actors weigh %d", name, f, v, per[f])
			}
		}
	}
	return nil
}

func (e *bookEnv) total(n int) int {
	t := 0
	for _, m := range e.m {
		if m.node == n {
			t += m.w
		}
	}
	return t
}

// picks compares the picks of every book with the model.
func (e *bookEnv) picks(l hx.Labels) error {
	ctx := context.Background()
	for n := range e.sc.Nodes {
		ab := e.ab(n)
		least := -1
		for k := range e.seen {
			if t := e.total(k); least < 0 || t < least {
				least = t
			}
		}
		l.Add(len(e.seen) > 1, "node-pick-among-many")
		for ty, name := range e.sc.Types {
			got, err := ab.GetLowWeightNodeForActor(ctx, name)
			if len(e.seen) == 0 {
				if err == nil {
					return fmt.Errorf("low-load node %+v, though none is registered", got)
				}
			} else {
				k := -1
				for i := range e.seen {
					if e.sc.Nodes[i] == got.Node && e.ip(i) == got.Ip && (e.sc.Mode == "sys" || got.Port == e.port(i)) {
						k = i
					}
				}
				if err != nil || k < 0 {
					return fmt.Errorf("low-load node: %+v, %v, which is not registered", got, err)
				}
				if e.total(k) != least {
					return fmt.Errorf("low-load node: %q with load %d, but the least load is %d", got.Node, e.total(k), least)
				}
			}
			a, err := ab.GetWildcardActor(ctx, name)
			best, cnt := -1, 0
			found := -1
			for id, m := range e.m {
				if m.ty != ty {
					continue
				}
				cnt++
				if t := e.total(m.node); best < 0 || t < best {
					best = t
				}
				if e.addr(id) == a {
					found = id
				}
			}
			l.Add(cnt > 10, "more-than-ten")
			l.Add(cnt > 1, "actor-pick-among-many")
			if cnt == 0 {
				if err == nil {
					return fmt.Errorf("any actor of type %q: %+v, though there is none", name, a)
				}
				continue
			}
			if err != nil || found < 0 {
				return fmt.Errorf("any actor of type %q: %+v, %v, which is not registered", name, a, err)
			}
			if t := e.total(e.m[found].node); cnt <= 10 && t != best {
				return fmt.Errorf("any actor of type %q: one on a node with load %d, but the least among its hosts is %d", name, t, best)
			}
		}
	}
	return nil
}

func runBook(sc scnBook, loads bool) hx.Out {
	var specs []hb.Spec
	for i, ty := range sc.Types {
		specs = append(specs, hb.Spec{Ty: ty, Weight: sc.W[i]})
	}
	e := &bookEnv{sc: sc, w: hb.New(specs...), m: map[int]ment{}, gone: map[int]bool{}, left: map[int]bool{}, seen: map[int]bool{},
		bk: make([]*addressbook.AddressBook, len(sc.Nodes)), nod: make([]*hb.Nod, len(sc.Nodes))}
	defer e.w.Close()
	ctx := context.Background()
	for n := range sc.Nodes {
		e.boot(n)
	}
	l := hx.Labels{}
	nt := false
	for si, s := range sc.Steps {
		cur, held := e.m[s.ID]
		ab, name, ty := e.ab(s.N), sc.IDs[s.ID], sc.Types[s.Ty]
		when := fmt.Sprintf("after step %d (%s)", si, s.Do)
		bad := func(f string, a ...any) hx.Out {
			return hx.Fail("step %d (%s): %s", si, s.Do, fmt.Sprintf(f, a...))
		}
		if e.gone[s.ID] || e.left[s.ID] && (s.Do == "reg" || s.Do == "unreg" || s.Do == "rm") {
			continue
		}
		switch s.Do {
		case "crash": // the node goes down as it is, and comes back
			e.boot(s.N)
			for id, m := range e.m {
				if m.node == s.N {
					e.left[id] = true
					l["crashed-with-actors"] = true
				}
			}
		case "reg":
			if held && cur.node != s.N {
				continue // ids are unique in the cluster, which is up to the user
			}
			var err error
			wt := s.W
			if sc.Mode == "sys" {
				wt = sc.W[s.Ty]
				_, err = e.nod[s.N].Reg(ty, name)
			} else {
				err = ab.Register(ctx, ty, name, wt)
			}
			if held {
				l["repeat"] = true
				if err == nil {
					return bad("id %q, which the node already holds, was accepted again", name)
				}
				break
			}
			if err != nil {
				return bad("id %q: %v", name, err)
			}
			e.m[s.ID] = ment{s.N, s.Ty, wt}
			e.seen[s.N] = true
		case "unreg":
			n := s.N
			if held {
				n = cur.node
			}
			var err error
			if sc.Mode == "sys" {
				t := s.Ty
				if held {
					t = cur.ty
				}
				err = e.nod[n].Sys.Unregister(name, sc.Types[t])
				if !held {
					err = errors.New("none")
				}
			} else {
				err = e.bk[n].Unregister(ctx, name, cur.w)
			}
			if held != (err == nil) {
				return bad("id %q, registered %v: %v", name, held, err)
			}
			delete(e.m, s.ID)
			l.Add(held, "removal")
			nt = nt || held
		case "rm":
			if !held || cur.node == s.N {
				continue
			}
			if err := ab.Unregister(ctx, name, cur.w); err != nil {
				return bad("id %q: %v", name, err)
			}
			delete(e.m, s.ID)
			e.gone[s.ID] = true
			l["removed-by-another-node"] = true
		case "clear":
			if sc.Mode == "sys" {
				e.nod[s.N].Exit()
				e.boot(s.N)
			} else if err := ab.Clear(ctx); err != nil {
				return bad("%v", err)
			}
			for id, m := range e.m {
				if m.node == s.N {
					delete(e.m, id)
					delete(e.left, id)
					l["clear-with-actors"] = true
					nt = true
				}
			}
			delete(e.seen, s.N)
		case "topic": // an event is published on a topic named like the node
			if sc.Mode == "sys" {
				if err := e.nod[0].Sys.Pub(sc.Nodes[s.N], "ev", []byte("x")); err != nil {
					return bad("%v", err)
				}
			} else if err := e.w.Raw.XAdd(ctx, &redis.XAddArgs{Stream: sc.Nodes[s.N], Values: []string{"ev", "x"}}).Err(); err != nil {
				return hx.Out{Infra: err}
			}
			l["topic-named-like-a-node"] = true
		case "bad":
			if ab.Register(ctx, "", name, 1) == nil || ab.Register(ctx, ty, "", 1) == nil || ab.Unregister(ctx, "", 1) == nil {
				return bad("an empty id or type was accepted")
			}
			if a, err := ab.GetByID(ctx, ""); err == nil {
				return bad("the empty id was looked up: %+v", a)
			}
		}
		if s.Q {
			continue
		}
		l.Add(len(sc.IDs) > 30, "crowd")
		var err error
		if loads {
			if err = e.loads(); err == nil {
				err = e.picks(l)
			}
			nt = nt || l["node-pick-among-many"] || l["actor-pick-among-many"]
		} else {
			err = e.lookups()
		}
		if err != nil {
			return hx.Fail("%s: %v", when, err)
		}
	}
	l[sc.Mode] = true
	l.Add(len(sc.Nodes) > 1, "several-nodes")
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}

func TestS01(t *testing.T) {
	hx.Check(t, "S01", "a registered actor was removed or cleaned up and looked up afterwards",
		func(rt *rapid.T) scnBook { return genBook(rt, false) },
		func(t *testing.T, sc scnBook) hx.Out {
			return hx.Bubble(t, func() hx.Out { return runBook(sc, false) })
		})
}

func TestS02(t *testing.T) {
	hx.Check(t, "S02", "an actor was removed or cleaned up, or a pick was made among several nodes or actors",
		func(rt *rapid.T) scnBook { return genBook(rt, true) },
		func(t *testing.T, sc scnBook) hx.Out {
			return hx.Bubble(t, func() hx.Out { return runBook(sc, true) })
		})
}

var _ = def.SymbolWildcard
