package ps

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/lib/dismutex"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ L05

// dop is what one contender does: it tries to lock, holds, and unlocks.
type dop struct {
	At    int    `json:"at"` // ms
	Name  int    `json:"name"`
	Hold  int    `json:"hold"`            // ms until it unlocks; -1: never
	With  string `json:"with,omitempty"`  // unlock with: "" its own value, wrong, empty, old
	Again int    `json:"again,omitempty"` // ms later it unlocks once more with its own value
	UF    int    `json:"uf,omitempty"`    // at the unlocking: 1 the store fails, 2 the answer is lost
	Fault []int  `json:"fault,omitempty"` // per attempt: 1 the store fails, 2 the answer is lost
}

type scnL05 struct {
	Ops   []dop `json:"ops"`
	Empty bool  `json:"empty,omitempty"`
}

func genL05(rt *rapid.T) scnL05 {
	sc := scnL05{Empty: rapid.IntRange(0, 9).Draw(rt, "empty") == 0}
	at := 0
	for i := rapid.IntRange(1, 10).Draw(rt, "ops"); i > 0; i-- {
		at += rapid.SampledFrom([]int{0, 1, 50, 300, 700, 1500, 4000, 9000}).Draw(rt, "gap")
		o := dop{At: at, Name: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "name"),
			Hold: rapid.SampledFrom([]int{-1, 0, 1, 100, 690, 701, 1000, 2000, 5000, 9990, 10010, 12000}).Draw(rt, "hold")}
		if rapid.IntRange(0, 3).Draw(rt, "w") == 0 {
			o.With = rapid.SampledFrom([]string{"wrong", "empty", "old", "other"}).Draw(rt, "with")
		}
		if rapid.IntRange(0, 3).Draw(rt, "ag") == 0 {
			o.Again = rapid.SampledFrom([]int{1, 500, 3000, 11000}).Draw(rt, "again")
		}
		if rapid.IntRange(0, 5).Draw(rt, "uf") == 0 {
			o.UF = rapid.IntRange(1, 2).Draw(rt, "ufault")
		}
		if rapid.IntRange(0, 3).Draw(rt, "hf") == 0 {
			o.Fault = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 4).Draw(rt, "fault")
		}
		sc.Ops = append(sc.Ops, o)
	}
	return sc
}

type dkey struct{}
type ukey struct{}

// TestL05 follows every contender in virtual time and compares with a model
// in which a lock is a holder and the end of its lease.
func TestL05(t *testing.T) {
	const lease = 10 * time.Second
	hx.Check(t, "L05", "a lock was asked for while somebody held it, or unlocked by somebody else than its holder", genL05, func(t *testing.T, sc scnL05) hx.Out {
		return hx.Bubble(t, func() hx.Out {
			w := hb.New()
			defer w.Close()
			var mu sync.Mutex
			t0 := time.Now()
			last := t0
			now := func() time.Duration { return time.Since(t0) }
			tries := make([]int, len(sc.Ops))
			w.Hook.Cmd = func(ctx context.Context, cmd redis.Cmder, next func() error) error {
				mu.Lock()
				defer mu.Unlock()
				// the store's clock follows the virtual one
				if d := time.Since(last); d > 0 {
					w.MR.FastForward(d)
					last = time.Now()
				}
				if uf, _ := ctx.Value(ukey{}).(int); uf > 0 {
					if uf == 2 {
						if err := next(); err != nil {
							return err // the script is not known yet, it comes again
						}
					}
					cmd.SetErr(hb.ErrStore)
					return hb.ErrStore
				}
				if k, ok := ctx.Value(dkey{}).(int); ok && cmd.Name() == "set" {
					i := tries[k]
					tries[k]++
					if i < len(sc.Ops[k].Fault) {
						switch sc.Ops[k].Fault[i] {
						case 1:
							cmd.SetErr(hb.ErrStore)
							return hb.ErrStore
						case 2:
							next()
							cmd.SetErr(hb.ErrStore)
							return hb.ErrStore
						}
					}
				}
				return next()
			}
			if sc.Empty {
				if v, err := dismutex.Lock(context.Background(), ""); err == nil {
					return hx.Fail("locking an empty name succeeded with %q", v)
				}
				if now() > time.Minute {
					return hx.Fail("refusing an empty name took %v", now())
				}
			}
			type ev struct {
				at   time.Duration
				k    int
				what string // locked, failed, unlock
				val  string
				ok   bool
				uf   int
			}
			var evs []ev
			add := func(e ev) { mu.Lock(); evs = append(evs, e); mu.Unlock() }
			vals := make([]string, len(sc.Ops))
			var lockNames = []string{"lock:a", "lock:b"}
			base := now()
			start := make([]time.Duration, len(sc.Ops))
			var wg sync.WaitGroup
			for k := range sc.Ops {
				o := sc.Ops[k]
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(ms(o.At) + time.Duration(k+1)*time.Microsecond)
					ctx := context.WithValue(context.Background(), dkey{}, k)
					start[k] = now()
					v, err := dismutex.Lock(ctx, lockNames[o.Name])
					if err != nil {
						add(ev{at: now(), k: k, what: "failed"})
						return
					}
					mu.Lock()
					vals[k] = v
					mu.Unlock()
					add(ev{at: now(), k: k, what: "locked", val: v, ok: true})
					if o.Hold < 0 {
						return
					}
					time.Sleep(ms(o.Hold) + time.Duration(100+k)*time.Microsecond)
					u := v
					switch o.With {
					case "wrong":
						u = v + "x"
					case "empty":
						u = ""
					case "old", "other":
						// a value handed out earlier or for another lock
						mu.Lock()
						for j, x := range vals {
							if x != "" && j != k && (sc.Ops[j].Name == o.Name) == (o.With == "old") {
								u = x
								break
							}
						}
						mu.Unlock()
					}
					at := now()
					ok := dismutex.Unlock(context.WithValue(context.Background(), ukey{}, o.UF), lockNames[o.Name], u)
					add(ev{at, k, "unlock", u, ok, o.UF})
					if o.Again > 0 {
						time.Sleep(ms(o.Again))
						at := now()
						ok := dismutex.Unlock(context.Background(), lockNames[o.Name], v)
						add(ev{at, k, "unlock", v, ok, 0})
					}
				}()
			}
			wg.Wait()
			w.Hook.Cmd = nil
			_ = base
			l := hx.Labels{}
			nt := false
			sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
			seen := map[string]int{}
			for _, e := range evs {
				if e.what == "locked" {
					if j, dup := seen[e.val]; dup {
						return hx.Fail("contenders %d and %d were handed the same value", j, e.k)
					}
					seen[e.val] = e.k
				}
			}
			// history per lock
			for n := range lockNames {
				var holder = -1 // -2: somebody whose answer was lost
				var val string
				var until time.Duration
				type act struct {
					at time.Duration
					f  func() string
				}
				var acts []act
				var hist []string
				for _, e := range evs {
					o := sc.Ops[e.k]
					if o.Name != n {
						continue
					}
					hist = append(hist, fmt.Sprintf("%v contender %d %s %v", e.at, e.k, e.what, e.ok))
					switch e.what {
					case "locked":
						acts = append(acts, act{e.at, func() string {
							if holder != -1 && e.at < until {
								return fmt.Sprintf("contender %d got the lock at %v while %d held it until %v", e.k, e.at, holder, until)
							}
							holder, val, until = e.k, e.val, e.at+lease
							return ""
						}})
					case "unlock":
						acts = append(acts, act{e.at, func() string {
							want := holder != -1 && e.at < until && e.val == val && val != ""
							if e.at == until {
								return ""
							}
							l.Add(e.val != vals[e.k], "foreign-value")
							l.Add(e.at > until && holder == e.k, "after-lease")
							nt = nt || e.val != vals[e.k]
							if e.uf > 0 && e.ok {
								return fmt.Sprintf("contender %d unlocked at %v and was told that it had, but the store failed", e.k, e.at)
							}
							l.Add(e.uf > 0, "store fails at the unlocking")
							if e.uf == 0 && e.ok != want {
								return fmt.Sprintf("contender %d unlocked at %v and was told %v; the lock was held by %d until %v, by that value: %v", e.k, e.at, e.ok, holder, until, e.val == val)
							}
							if want && e.uf != 1 {
								holder, val = -1, ""
							}
							return ""
						}})
					}
				}
				// attempts whose answer was lost take the lock all the same
				for k, o := range sc.Ops {
					if o.Name != n {
						continue
					}
					for i, f := range o.Fault {
						if f != 2 || i >= tries[k] {
							continue
						}
						at := start[k] + time.Duration(i)*700*time.Millisecond
						acts = append(acts, act{at, func() string {
							if holder == -1 || at >= until {
								holder, val, until = -2, "", at+lease
								l.Add(true, "answer-lost")
							}
							return ""
						}})
					}
				}
				// failures: it was taken, or the store failed, at every attempt
				for _, e := range evs {
					o := sc.Ops[e.k]
					if o.Name != n || e.what == "unlock" {
						continue
					}
					if d := e.at - start[e.k]; d > 20*time.Second {
						return hx.Fail("contender %d tried for %v", e.k, d)
					}
					at0 := start[e.k]
					for i := 0; i < 4; i++ {
						at := at0 + time.Duration(i)*700*time.Millisecond
						if e.what == "locked" && at >= e.at {
							break
						}
						acts = append(acts, act{at, func() string {
							if i < len(o.Fault) && o.Fault[i] != 0 {
								return ""
							}
							nt = true
							l.Add(true, "contended")
							if holder == -1 || at > until {
								return fmt.Sprintf("contender %d tried from %v on; at %v the lock was free, but it did not get it", e.k, at0, at)
							}
							return ""
						}})
					}
				}
				sort.SliceStable(acts, func(i, j int) bool { return acts[i].at < acts[j].at })
				for _, a := range acts {
					if m := a.f(); m != "" {
						return hx.Fail("%s: %s\n %s", lockNames[n], m, strings.Join(hist, "\n "))
					}
				}
			}
			l.Add(len(sc.Ops) > 2, "several")
			return hx.Out{NonTrivial: nt, Labels: l.List()}
		})
	})
}
