package act

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ A06

// genTree draws what the handler at actor cur sends on. org is the actor the
// message being handled originated at (-1: outside).
func genTree(t *rapid.T, sc *Scn, cur, org, depth int, long bool, fresh bool) []Op {
	var ops []Op
	for i := rapid.IntRange(0, 3).Draw(t, "fan"); i > 0 && depth > 0; i-- {
		if sc.Actors < 2 {
			break
		}
		o := Op{At: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "pause"), Kind: rapid.SampledFrom([]string{"call", "call", "send"}).Draw(t, "nkind"),
			Ev: rapid.IntRange(0, sc.Events-1).Draw(t, "nev"), Dur: rapid.IntRange(0, 40).Draw(t, "ndur")}
		if long && rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			o.Dur = rapid.IntRange(1000, 6000).Draw(t, "ldur")
		}
		if rapid.IntRange(0, 7).Draw(t, "nf") == 0 {
			o.Fault = rapid.SampledFrom([]string{"err", "panic", "berr", "apanic"}).Draw(t, "nfault")
		}
		switch k := rapid.IntRange(0, 5).Draw(t, "how"); {
		case k == 0 && fresh && cur+1 < sc.Actors && o.Kind == "call":
			// a call tree of its own, towards higher actors only: no cycles of waiting
			o.Fresh = true
			o.To = rapid.IntRange(cur+1, sc.Actors-1).Draw(t, "nto")
		case k == 1 && i == 1:
			o.Fwd = true
			o.To = rapid.IntRange(0, sc.Actors-1).Draw(t, "nto")
			// a message called on by an actor's handler originates there
			fo := org
			if fo < 0 && o.Kind == "call" {
				fo = cur
			}
			if o.To == cur || o.To == fo || o.Fault != "" {
				continue
			}
			o.Sub = genTree(t, sc, o.To, fo, depth-1, long, false)
			ops = append(ops, o)
			continue
		default:
			o.To = (cur + rapid.IntRange(1, sc.Actors-1).Draw(t, "nto")) % sc.Actors
		}
		// a message sent with Send keeps an empty origin
		norg := cur
		if o.Kind == "send" {
			norg = -1
		}
		o.Sub = genTree(t, sc, o.To, norg, depth-1, long, o.Fresh)
		ops = append(ops, o)
	}
	return ops
}

type scnA06 struct {
	Scn
	Storm *Storm `json:"storm,omitempty"`
}

func genA06(rt *rapid.T) scnA06 {
	if s := genStorm(rt, []int{0, 1, 30, 100}, 3); s != nil {
		return scnA06{Storm: s}
	}
	return scnA06{Scn: genTrees(rt)}
}

func genTrees(rt *rapid.T) Scn {
	sc := Scn{Actors: rapid.IntRange(2, 5).Draw(rt, "actors"), Events: 2}
	long := rapid.IntRange(0, 2).Draw(rt, "withlong") == 0
	for p := rapid.IntRange(1, 3).Draw(rt, "prods"); p > 0; p-- {
		at := 0
		var ops []Op
		for i := rapid.IntRange(1, 3).Draw(rt, "ops"); i > 0; i-- {
			at += rapid.IntRange(0, 60).Draw(rt, "gap")
			o := Op{At: at, To: rapid.IntRange(0, sc.Actors-1).Draw(rt, "to"), Kind: "call", Ev: rapid.IntRange(0, 1).Draw(rt, "ev"), Dur: rapid.IntRange(0, 40).Draw(rt, "dur")}
			if rapid.IntRange(0, 4).Draw(rt, "k") == 0 {
				o.Kind = "send"
			}
			if long && rapid.IntRange(0, 3).Draw(rt, "l") == 0 {
				o.Dur = rapid.IntRange(1000, 6000).Draw(rt, "ld")
			}
			if rapid.IntRange(0, 2).Draw(rt, "c") == 0 {
				o.Ctx = rapid.SampledFrom([]int{1, 7, 20, 50, 120, 1000, 3000, 5500, 9000}).Draw(rt, "ctx")
			}
			org := -1
			o.Sub = genTree(rt, &sc, o.To, org, 3, long, true)
			ops = append(ops, o)
		}
		sc.Prods = append(sc.Prods, ops)
	}
	genFlavor(rt, &sc)
	genAgain(rt, &sc)
	return sc
}

func TestA06(t *testing.T) {
	hx.Check(t, "A06", "a call made from outside had nested messages, or its context or the five seconds ended first", genA06, func(t *testing.T, sc scnA06) hx.Out {
		if sc.Storm != nil {
			return storm(sc.Storm)
		}
		return hx.Bubble(t, func() hx.Out {
			e := &eng{}
			e.start(&sc.Scn)
			e.produce()
			e.settle()
			l := labels(e)
			nt := false
			for _, in := range e.all {
				if in.op.Kind == "call" && in.par == nil {
					l.Add(in.err != nil || in.mwErr != nil, "gave-up")
					l.Add(in.op.Ctx > 0 && in.err == nil && in.mwErr == nil, "in-time")
					nt = nt || len(in.kids) > 0 || in.err != nil || in.mwErr != nil
				}
				l.Add(in.op.Fresh, "inner-root")
				l.Add(in.op.Fwd, "forwarded")
			}
			// refused nested messages would not be part of the tree: none is refused here
			var err error
			for _, in := range e.all {
				if in.par != nil && !in.op.Fresh && in.err != nil && err == nil {
					err = fmt.Errorf("nested m%d to actor %d was refused: %v", in.id, in.op.To, in.err)
				}
			}
			if err == nil {
				err = firstErr(e.sound, e.calls, e.dropped, e.responses, e.conserving)
			}
			e.w.Close()
			return e.out(err, nt, l)
		})
	})
}

// responses: what the handlers of a call (and of its forwards) wrote is there
// when the call has returned success.
func (e *eng) responses() error {
	for _, in := range e.all {
		if in.op.Kind != "call" || in.par != nil || in.err != nil || in.mwErr != nil || in.op.Fwd {
			continue
		}
		var want []string
		var walk func(*inst)
		walk = func(i *inst) {
			if i.handler > 0 {
				want = append(want, fmt.Sprintf("[%d]", i.id))
			}
			for _, k := range i.kids {
				if k.op.Fwd {
					walk(k)
				}
			}
		}
		walk(in)
		for _, w := range want {
			if !strings.Contains(in.res, w) {
				return fmt.Errorf("m%d: response %q misses %s", in.id, in.res, w)
			}
		}
	}
	return nil
}

// ------------------------------------------------------------------ A07

// life of an actor beyond the permanent ones
type life struct {
	Actor int    `json:"actor"`
	At    int    `json:"at"`
	Do    string `json:"do"` // reg, unreg, exit
}

type scnA07 struct {
	Scn
	Perm int    `json:"perm"` // actors 0..Perm-1 are there all the time
	Life []life `json:"life"`
}

func badTarget(t *rapid.T) string {
	return rapid.SampledFrom([]string{"empty", "unknown", "wild", "local"}).Draw(t, "tgt")
}

func genA07(rt *rapid.T) scnA07 {
	var sc scnA07
	sc.Perm = rapid.IntRange(2, 3).Draw(rt, "perm")
	sc.Actors = sc.Perm + rapid.IntRange(1, 2).Draw(rt, "temp")
	sc.Events = 2
	at := 0
	for i := rapid.IntRange(0, 8).Draw(rt, "life"); i > 0; i-- {
		at += rapid.IntRange(0, 30).Draw(rt, "lgap")
		sc.Life = append(sc.Life, life{Actor: rapid.IntRange(sc.Perm, sc.Actors-1).Draw(rt, "la"), At: at,
			Do: rapid.SampledFrom([]string{"reg", "reg", "unreg", "exit"}).Draw(rt, "ldo")})
	}
	for p := rapid.IntRange(1, 3).Draw(rt, "prods"); p > 0; p-- {
		pat := 0
		var ops []Op
		for i := rapid.IntRange(1, 6).Draw(rt, "ops"); i > 0; i-- {
			pat += rapid.IntRange(0, 30).Draw(rt, "gap")
			o := Op{At: pat, To: rapid.IntRange(0, sc.Actors-1).Draw(rt, "to"), Kind: rapid.SampledFrom([]string{"call", "send"}).Draw(rt, "kind"), Ev: rapid.IntRange(0, 1).Draw(rt, "ev"),
				Dur: rapid.IntRange(0, 15).Draw(rt, "dur")}
			switch rapid.IntRange(0, 3).Draw(rt, "u") {
			case 0:
				o.Tgt = badTarget(rt)
				o.To = rapid.IntRange(0, sc.Perm-1).Draw(rt, "retryto")
				o.Retry = rapid.Bool().Draw(rt, "retry")
			case 3:
				o.Retry = o.To >= sc.Perm
			case 1, 2:
				// the handler sends on, among others to itself and back to the origin
				for k := rapid.IntRange(1, 3).Draw(rt, "subs"); k > 0; k-- {
					s := Op{Kind: rapid.SampledFrom([]string{"call", "send"}).Draw(rt, "skind"), Ev: 0, Dur: rapid.IntRange(0, 10).Draw(rt, "sdur")}
					switch rapid.IntRange(0, 4).Draw(rt, "st") {
					case 0:
						s.Tgt = badTarget(rt)
					case 1:
						s.Tgt, s.Kind, s.To = "self", "call", o.To
					case 2:
						// a permanent actor other than this one gets it and passes it back
						s.To = (o.To + 1) % sc.Perm
						s.Kind = "call"
						if s.To != o.To {
							s.Sub = []Op{{Tgt: "org", Fwd: true, Kind: rapid.SampledFrom([]string{"call", "send"}).Draw(rt, "bkind"), To: o.To}}
						} else {
							s.Tgt = "self"
						}
					default:
						s.To = rapid.IntRange(0, sc.Actors-1).Draw(rt, "sto")
						if s.To == o.To {
							s.Tgt, s.Kind = "self", "call"
						}
					}
					o.Sub = append(o.Sub, s)
				}
			}
			ops = append(ops, o)
		}
		sc.Prods = append(sc.Prods, ops)
	}
	genFlavor(rt, &sc.Scn)
	return sc
}

func TestA07(t *testing.T) {
	hx.Check(t, "A07", "something undeliverable was refused and something deliverable ran afterwards", genA07, func(t *testing.T, sc scnA07) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			e := &eng{temp: sc.Perm}
			e.start(&sc.Scn)
			// when an actor is there: from its registration to the begin of its shutdown
			type span struct{ from, to time.Duration }
			const never = time.Duration(1) << 60
			spans := make([][]span, sc.Actors)
			for a := 0; a < sc.Perm; a++ {
				spans[a] = []span{{-1, never}}
			}
			var mu sync.Mutex
			var lerr error
			var wg sync.WaitGroup
			for a := sc.Perm; a < sc.Actors; a++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					reg, open := false, false
					for i, f := range sc.Life {
						if f.Actor != a {
							continue
						}
						if d := ms(f.At) + time.Duration(900+i)*time.Microsecond - e.now(); d > 0 {
							time.Sleep(d)
						}
						switch {
						case f.Do == "reg":
							_, err := e.n.Reg(aty(a), aid(a))
							mu.Lock()
							if (err == nil) == reg {
								lerr = fmt.Errorf("registering actor %d, registered already: %v, returned %v", a, reg, err)
							}
							if err == nil {
								spans[a] = append(spans[a], span{e.now(), never})
							}
							mu.Unlock()
							reg, open = true, open || err == nil
						case f.Do == "unreg" && reg:
							mu.Lock()
							if open {
								spans[a][len(spans[a])-1].to = e.now()
							}
							mu.Unlock()
							if err := e.n.Sys.Unregister(aid(a), aty(a)); err != nil {
								mu.Lock()
								lerr = fmt.Errorf("unregistering actor %d: %v", a, err)
								mu.Unlock()
							}
							reg, open = false, false
						case f.Do == "exit" && open:
							mu.Lock()
							spans[a][len(spans[a])-1].to = e.now()
							mu.Unlock()
							e.acts[a].Exit()
							open = false
						}
					}
				}()
			}
			e.produce()
			wg.Wait()
			e.settle()
			l := labels(e)
			e.mu.Lock()
			err := lerr
			refused, ran := false, false
			for _, in := range e.all {
				if err != nil {
					break
				}
				if in.op.Tgt != "" && in.started > 0 {
					err = fmt.Errorf("m%d to %q ran", in.id, in.op.Tgt)
					break
				}
				there := in.op.Tgt == ""
				tie := false
				if there {
					there = false
					for _, s := range spans[in.op.To] {
						if in.offered > s.from && in.offered < s.to {
							there = true
						}
						tie = tie || in.offered == s.from || in.offered == s.to
					}
				}
				if tie {
					continue
				}
				if r := in.retried; r != nil && in.par == nil && r.err == nil && r.mwErr != nil && r.returned-r.offered < 5*time.Second {
					err = fmt.Errorf("m%d was refused (%v), then the same message was called through to actor %d, but it carries the error %v", in.id, in.err, r.op.To, r.mwErr)
					break
				}
				switch {
				case there && in.err != nil:
					err = fmt.Errorf("m%d to actor %d at %v was refused although it was there: %v", in.id, in.op.To, in.offered, in.err)
				case !there && in.err == nil:
					err = fmt.Errorf("m%d to actor %d (%s) at %v was accepted", in.id, in.op.To, in.op.Tgt, in.offered)
				case !there && in.returned != in.offered:
					err = fmt.Errorf("m%d was refused only after %v", in.id, in.returned-in.offered)
				}
				if !there {
					refused = true
					name := in.op.Tgt
					if name == "" {
						name = "gone"
					}
					l["refused-"+name] = true
				} else if refused {
					ran = true
				}
				l.Add(in.retried != nil, "sent-again")
			}
			e.mu.Unlock()
			if err == nil {
				err = firstErr(e.sound, e.calls, e.dropped)
			}
			if err == nil && sc.Perm == 2 {
				// what was refused is there now, on another node
				o := e.w.Node("elsewhere", "10.9.9.9", 0)
				for a := -1; a < sc.Actors && err == nil; a++ {
					ty, id := "guest", "nobody"
					if a >= 0 {
						ty, id = aty(a), aid(a)
					}
					if _, ferr := e.n.Sys.FindActor(context.Background(), id); ferr == nil {
						continue
					}
					rec := o.Sys.AddressBook()
					if rerr := rec.Register(context.Background(), ty, id, 1); rerr != nil {
						err = fmt.Errorf("registering %s elsewhere: %v", id, rerr)
						break
					}
					info, gerr := e.n.Sys.AddressBook().GetByID(context.Background(), id)
					if gerr != nil || info.Node != "elsewhere" {
						err = fmt.Errorf("%s is on another node now, but a call to it from here would go to %+v, %v", id, info, gerr)
					}
					l.Add(a >= 0, "gone-now-elsewhere")
				}
			}
			e.w.Close()
			return e.out(err, refused && ran, l)
		})
	})
}

var _ = context.Background
