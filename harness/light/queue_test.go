package light

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/unbounded"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

type qItem struct{ P, I int }

type qSc struct {
	// sequential part: ops of one goroutine
	Ops []string `json:"ops"`
	// concurrent part
	Producers []int `json:"producers"` // items per producer
	Yield     []int `json:"yield"`     // producers yield after every n-th item (0: never)
	Consumer  int   `json:"consumer"`  // consumer yields after every n-th item
	Spurious  int   `json:"spurious"`  // consumer pops once more without a token every n-th time
}

func genQ(ops []string) func(rt *rapid.T) qSc {
	return func(rt *rapid.T) qSc {
		sc := qSc{}
		sc.Ops = rapid.SliceOfN(rapid.SampledFrom(ops), 0, 30).Draw(rt, "ops")
		if rapid.IntRange(0, 63).Draw(rt, "bulk") == 37 {
			// many at once: a long backlog, and most of it taken out again
			n := rapid.SampledFrom([]int{100, 1000, 5000, 20000, 70000}).Draw(rt, "bulkn")
			sc.Ops = append(sc.Ops, fmt.Sprintf("%s*%d", ops[0], n))
			if rapid.Bool().Draw(rt, "bulkout") {
				sc.Ops = append(sc.Ops, fmt.Sprintf("%s*%d", ops[2], n-rapid.IntRange(0, 3).Draw(rt, "rest")), ops[0], ops[2], ops[0], ops[2], ops[2], ops[2], ops[2], ops[2])
			}
		}
		np := rapid.IntRange(1, 6).Draw(rt, "np")
		for i := 0; i < np; i++ {
			sc.Producers = append(sc.Producers, rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(1, 60)).Draw(rt, "items"))
			sc.Yield = append(sc.Yield, rapid.IntRange(0, 4).Draw(rt, "yield"))
		}
		if rapid.IntRange(0, 63).Draw(rt, "many") == 37 {
			sc.Producers[0] = rapid.SampledFrom([]int{300, 3000, 10000, 40000}).Draw(rt, "manyn")
		}
		sc.Consumer = rapid.IntRange(0, 4).Draw(rt, "cyield")
		sc.Spurious = rapid.IntRange(0, 5).Draw(rt, "spurious")
		return sc
	}
}

// steps expands what is to be repeated.
func (sc qSc) steps() []string {
	var out []string
	for _, o := range sc.Ops {
		name, n, ok := strings.Cut(o, "*")
		if !ok {
			out = append(out, o)
			continue
		}
		k, _ := strconv.Atoi(n)
		for ; k > 0; k-- {
			out = append(out, name)
		}
	}
	return out
}

func runMpsc(t *testing.T, sc qSc) hx.Out {
	l := hx.Labels{}
	// sequential against a list
	q := mpsc.New()
	var model []int
	n := 0
	for i, op := range sc.steps() {
		switch op {
		case "push":
			n++
			q.Push(n)
			model = append(model, n)
		case "pop":
			v := q.Pop()
			if len(model) == 0 {
				if v != nil {
					return hx.Fail("step %d: pop of an empty queue gave %v", i, v)
				}
			} else {
				if v != model[0] {
					return hx.Fail("step %d: pop gave %v, want %v", i, v, model[0])
				}
				model = model[1:]
			}
		case "tok":
			select {
			case <-q.C:
				v := q.Pop()
				if len(model) > 0 {
					if v != model[0] {
						return hx.Fail("step %d: pop gave %v, want %v", i, v, model[0])
					}
					model = model[1:]
				} else if v != nil {
					return hx.Fail("step %d: pop of an empty queue gave %v", i, v)
				}
			default:
				if len(model) > 0 {
					return hx.Fail("step %d: %d items present but no wake-up token", i, len(model))
				}
			}
		}
		if q.Empty() != (len(model) == 0) {
			return hx.Fail("step %d: Empty() = %v with %d items", i, q.Empty(), len(model))
		}
		if int(q.Count()) != len(model) {
			return hx.Fail("step %d: Count() = %d with %d items", i, q.Count(), len(model))
		}
	}
	// concurrent, in a bubble so that a stalled consumer is detected
	total := 0
	for _, k := range sc.Producers {
		total += k
	}
	l.Add(total > 40, "over-40-items")
	l.Add(total > 1000 || len(sc.Ops) > 0 && strings.Contains(strings.Join(sc.Ops, " "), "*"), "bulk")
	l.Add(len(sc.Producers) > 1, "many-producers")
	o := hx.Bubble(t, func() hx.Out {
		q := mpsc.New()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := range sc.Producers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < sc.Producers[p]; i++ {
					q.Push(qItem{p, i})
					if y := sc.Yield[p]; y > 0 && i%y == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		next := make([]int, len(sc.Producers))
		got := 0
		take := func(v interface{}) error {
			if v == nil {
				return nil
			}
			it, ok := v.(qItem)
			if !ok {
				return fmt.Errorf("popped a foreign value %v", v)
			}
			if next[it.P] != it.I {
				return fmt.Errorf("producer %d: popped item %d, expected %d", it.P, it.I, next[it.P])
			}
			next[it.P]++
			got++
			return nil
		}
		close(start)
		for k := 0; got < total; k++ {
			<-q.C
			if err := take(q.Pop()); err != nil {
				return hx.Out{Err: err}
			}
			if sc.Spurious > 0 && k%sc.Spurious == 0 {
				if err := take(q.Pop()); err != nil {
					return hx.Out{Err: err}
				}
			}
			if sc.Consumer > 0 && k%sc.Consumer == 0 {
				runtime.Gosched()
			}
		}
		wg.Wait()
		if v := q.Pop(); v != nil {
			return hx.Fail("an extra item came out: %v", v)
		}
		if !q.Empty() || q.Count() != 0 {
			return hx.Fail("drained queue: Empty %v Count %d", q.Empty(), q.Count())
		}
		return hx.Out{}
	})
	if o.Err != nil {
		o.Err = fmt.Errorf("%d producers, %d items: %w", len(sc.Producers), total, o.Err)
	}
	o.NonTrivial = len(sc.Producers) > 1 && total >= 4
	o.Labels = l.List()
	return o
}

func TestL01(t *testing.T) {
	hx.Check(t, "L01", "up to 30 sequential push/pop/token operations against a list, then 1-6 concurrent producers with up to 60 items each and one consumer popping once per token; non-trivial: at least 2 producers and 4 items",
		genQ([]string{"push", "push", "pop", "tok", "tok"}), runMpsc)
}

// ------------------------------------------------------------------ L02

func runUnb(t *testing.T, sc qSc) hx.Out {
	l := hx.Labels{}
	u := unbounded.NewUnbounded()
	var waiting []int // not yet received, in order
	ready := false    // the head sits in the channel
	backlog := false
	n := 0
	for i, op := range sc.steps() {
		switch op {
		case "put":
			n++
			u.Put(n)
			waiting = append(waiting, n)
			if len(waiting) == 1 {
				ready = true
			}
		case "load":
			u.Load()
			ready = len(waiting) > 0
		case "get":
			select {
			case v := <-u.Get():
				if !ready {
					return hx.Fail("step %d: received %v although nothing was ready", i, v)
				}
				if v != waiting[0] {
					return hx.Fail("step %d: received %v, want %v", i, v, waiting[0])
				}
				waiting = waiting[1:]
				ready = false
				u.Load()
				ready = len(waiting) > 0
			default:
				if ready {
					return hx.Fail("step %d: %d items waiting but nothing to receive", i, len(waiting))
				}
			}
		}
		want := len(waiting)
		if ready {
			want--
		}
		backlog = backlog || want > 1
		if u.Len() != want {
			return hx.Fail("step %d (%s): Len() = %d, want %d", i, op, u.Len(), want)
		}
	}
	l.Add(backlog, "backlog")
	l.Add(strings.Contains(strings.Join(sc.Ops, " "), "*"), "bulk")
	total := 0
	for _, k := range sc.Producers {
		total += k
	}
	o := hx.Bubble(t, func() hx.Out {
		u := unbounded.NewUnbounded()
		start := make(chan struct{})
		var wg sync.WaitGroup
		for p := range sc.Producers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < sc.Producers[p]; i++ {
					u.Put(qItem{p, i})
					if y := sc.Yield[p]; y > 0 && i%y == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		next := make([]int, len(sc.Producers))
		close(start)
		if sc.Spurious == 0 {
			wg.Wait() // putting never blocks, whatever the backlog
		}
		for k := 0; k < total; k++ {
			it, ok := (<-u.Get()).(qItem)
			u.Load()
			if !ok || next[it.P] != it.I {
				return hx.Fail("producer %d: received item %d, expected %d", it.P, it.I, next[it.P])
			}
			next[it.P]++
			if sc.Spurious > 0 && k%sc.Spurious == 0 {
				u.Load()
			}
			if sc.Consumer > 0 && k%sc.Consumer == 0 {
				runtime.Gosched()
			}
		}
		wg.Wait()
		select {
		case v := <-u.Get():
			return hx.Fail("an extra item came out: %v", v)
		default:
		}
		if u.Len() != 0 {
			return hx.Fail("drained buffer has Len %d", u.Len())
		}
		return hx.Out{}
	})
	o.NonTrivial = backlog || (len(sc.Producers) > 1 && total > 4)
	o.Labels = l.List()
	return o
}

func TestL02(t *testing.T) {
	hx.Check(t, "L02", "up to 30 sequential put/receive+load/extra-load operations against a list, then 1-6 concurrent producers and one reader; non-trivial: a backlog of at least 2, or 2 producers with 5 items",
		genQ([]string{"put", "put", "get", "load"}), runUnb)
}
