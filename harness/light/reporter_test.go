package light

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/pojol/braid/lib/tracer"
	"github.com/uber/jaeger-client-go"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T08

type burst struct {
	At int `json:"at"` // ms
	N  int `json:"n"`
	By int `json:"by"` // goroutines
}

type scnT08 struct {
	Bursts []burst `json:"bursts"`
	Prob   int     `json:"prob"` // per cent
	App    []int   `json:"app"`  // ms the sender takes per span, in turn
	Flu    []int   `json:"flu"`
	Errs   []int   `json:"errs"` // appends that fail, by number modulo 7
	FErrs  []int   `json:"ferrs"`
	Close  []int   `json:"close"` // ms; several of them
	Pool   bool    `json:"pool"`
	Seed   uint64  `json:"seed"`
}

func genT08(rt *rapid.T) scnT08 {
	sc := scnT08{Prob: rapid.SampledFrom([]int{100, 100, 100, 0, 30, 70}).Draw(rt, "prob"), Pool: rapid.Bool().Draw(rt, "pool"), Seed: rapid.Uint64().Draw(rt, "seed")}
	for k := rapid.IntRange(1, 8).Draw(rt, "bursts"); k > 0; k-- {
		b := burst{At: rapid.IntRange(0, 4000).Draw(rt, "at"), N: rapid.IntRange(1, 12).Draw(rt, "n"), By: 1}
		if rapid.IntRange(0, 4).Draw(rt, "big") == 0 {
			b.N = rapid.IntRange(60, 140).Draw(rt, "bign")
		}
		if rapid.IntRange(0, 4).Draw(rt, "many") == 0 {
			b.By = rapid.IntRange(2, 5).Draw(rt, "by")
		}
		sc.Bursts = append(sc.Bursts, b)
	}
	ms := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 3, 40, 700})
	for k := rapid.IntRange(0, 3).Draw(rt, "app"); k > 0; k-- {
		sc.App = append(sc.App, ms.Draw(rt, "appms"))
	}
	for k := rapid.IntRange(0, 3).Draw(rt, "flu"); k > 0; k-- {
		sc.Flu = append(sc.Flu, ms.Draw(rt, "flums"))
	}
	if rapid.IntRange(0, 5).Draw(rt, "stuck") == 0 {
		// the sender hangs for a while, the queue fills and the reporter is closed
		sc.App = append([]int{rapid.IntRange(900, 4000).Draw(rt, "hang")}, make([]int, rapid.IntRange(20, 160).Draw(rt, "then"))...)
		b := burst{At: rapid.IntRange(0, 1000).Draw(rt, "sat"), N: rapid.IntRange(95, 140).Draw(rt, "sn"), By: 1}
		sc.Bursts = []burst{b, {At: b.At + rapid.IntRange(1, 30).Draw(rt, "sgap"), N: rapid.IntRange(1, 12).Draw(rt, "sn2"), By: 1}}
		sc.Close = []int{b.At + rapid.IntRange(31, 300).Draw(rt, "sclose")}
		return sc
	}
	sc.Errs = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(rt, "errs")
	sc.FErrs = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(rt, "ferrs")
	for k := rapid.IntRange(1, 3).Draw(rt, "closes"); k > 0; k-- {
		sc.Close = append(sc.Close, rapid.IntRange(0, 5000).Draw(rt, "close"))
	}
	return sc
}

func TestT08(t *testing.T) {
	hx.Check(t, "T08", "the sender was slow or failed, or spans were waiting when the reporter was closed", genT08, func(t *testing.T, sc scnT08) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runT08(sc) })
	})
}

// sender is a transport that notes what it is given.
type sender struct {
	mu     sync.Mutex
	t0     time.Time
	sc     scnT08
	names  []string
	begun  map[string]bool
	busy   [][2]time.Duration // activity
	flush  []time.Duration    // begin of the flushes
	last   []string           // the calls in order: a, f, c
	active int
	over   bool // two calls at once
	bad    string
}

func pick(v []int, n int) time.Duration {
	if len(v) == 0 {
		return 0
	}
	return time.Duration(v[n%len(v)]) * time.Millisecond
}

func has(v []int, n int) bool {
	for _, x := range v {
		if x == n%7 {
			return true
		}
	}
	return false
}

func (s *sender) enter(what string) {
	s.over = s.over || s.active > 0
	s.active++
	s.last = append(s.last, what)
	s.busy = append(s.busy, [2]time.Duration{time.Since(s.t0), 1 << 60})
}

func (s *sender) leave() {
	s.active--
	s.busy[len(s.busy)-1][1] = time.Since(s.t0)
}

func (s *sender) Append(span *jaeger.Span) (int, error) {
	s.mu.Lock()
	n := len(s.names)
	name := span.OperationName()
	s.names = append(s.names, name)
	s.begun[name] = true
	s.enter("a")
	s.mu.Unlock()
	time.Sleep(pick(s.sc.App, n))
	s.mu.Lock()
	defer s.mu.Unlock()
	if span.OperationName() != name {
		s.bad = fmt.Sprintf("span %s turned into %s while it was handed over", name, span.OperationName())
	}
	s.leave()
	if has(s.sc.Errs, n) {
		return 1, errors.New("cannot send")
	}
	return n % 2, nil
}

func (s *sender) Flush() (int, error) {
	s.mu.Lock()
	n := len(s.flush)
	s.flush = append(s.flush, time.Since(s.t0))
	s.enter("f")
	s.mu.Unlock()
	time.Sleep(pick(s.sc.Flu, n))
	s.mu.Lock()
	defer s.mu.Unlock()
	s.leave()
	if has(s.sc.FErrs, n) {
		return 2, errors.New("cannot flush")
	}
	return 1, nil
}

func (s *sender) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.enter("c")
	s.leave()
	return nil
}

type counter struct {
	mu sync.Mutex
	n  int64
}

func (c *counter) Inc(d int64) { c.mu.Lock(); c.n += d; c.mu.Unlock() }

func runT08(sc scnT08) hx.Out {
	s := &sender{t0: time.Now(), sc: sc, begun: map[string]bool{}}
	m := jaeger.NewNullMetrics()
	dropped := &counter{}
	m.ReporterDropped = dropped
	rep := tracer.NewSlowReporter(s, m, float64(sc.Prob)/100)
	var rmu sync.Mutex
	x := sc.Seed | 1
	rnd := func() uint64 {
		rmu.Lock()
		defer rmu.Unlock()
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	tr, trc := jaeger.NewTracer("svc", jaeger.NewConstSampler(true), rep, jaeger.TracerOptions.PoolSpans(sc.Pool), jaeger.TracerOptions.RandomNumber(rnd))
	_ = trc // closes the reporter as well
	ref, _ := jaeger.NewProbabilisticSampler(float64(sc.Prob) / 100)
	now := func() time.Duration { return time.Since(s.t0) }
	var mu sync.Mutex
	order := map[string]int{}    // by name, the place within its goroutine
	group := map[string]string{} // the goroutine
	sampled := map[string]bool{} // the reference's choice
	must := map[string]bool{}    // there was room
	reported := 0                // all
	var since []string           // those possibly waiting, oldest first
	var closeBegin time.Duration = -1
	bad := ""
	lab := hx.Labels{}
	nt := false
	seq := 0
	one := func(g string, by int) {
		mu.Lock()
		seq++
		name := fmt.Sprintf("op%d", seq)
		order[name], group[name] = seq, g
		mu.Unlock()
		sp := tr.StartSpan(name, opentracing.Tag{Key: "k", Value: name})
		id := sp.(*jaeger.Span).SpanContext().TraceID()
		want, _ := ref.IsSampled(id, name)
		mu.Lock()
		s.mu.Lock()
		for len(since) > 0 && s.begun[since[0]] {
			since = since[1:]
		}
		s.mu.Unlock()
		sampled[name] = want
		// an unsampled one may have gone without a trace: it counts as waiting until the next pause
		ahead, first, open := len(since), order[name], closeBegin < 0
		if open {
			reported++
			since = append(since, name)
		}
		mu.Unlock()
		at := now()
		sp.Finish()
		if d := now() - at; d > 0 {
			mu.Lock()
			bad = fmt.Sprintf("reporting %s took %v", name, d)
			mu.Unlock()
		}
		mu.Lock()
		// others may have overtaken it, and up to four be on their way
		room := 100
		if by > 1 {
			room -= 4
		}
		must[name] = open && ahead+seq-first < room
		mu.Unlock()
	}
	var wg sync.WaitGroup
	var closeEnd time.Duration
	var waiting int
	closedLen, namesAtEnd := 0, 0
	closers := 0
	// events at their own moments, closers after bursts of the same millisecond
	for k, at := range sc.Close {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(at)*time.Millisecond + time.Duration(600+k*50)*time.Microsecond)
			mu.Lock()
			closers++
			first := closers == 1
			if first {
				closeBegin = now()
				s.mu.Lock()
				for len(since) > 0 && s.begun[since[0]] {
					since = since[1:]
				}
				waiting = len(since)
				s.mu.Unlock()
			}
			mu.Unlock()
			rep.Close()
			if first {
				mu.Lock()
				closeEnd = now()
				s.mu.Lock()
				closedLen, namesAtEnd = len(s.last), len(s.names)
				s.mu.Unlock()
				mu.Unlock()
			}
		}()
	}
	for k, b := range sc.Bursts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(b.At)*time.Millisecond + time.Duration(7+k*13)*time.Microsecond)
			synctest.Wait()
			mu.Lock()
			s.mu.Lock()
			if s.active == 0 { // the reporter is idle: nothing is waiting
				since = nil
			}
			s.mu.Unlock()
			mu.Unlock()
			if b.By == 1 {
				for j := 0; j < b.N; j++ {
					one(fmt.Sprint("b", k), 1)
				}
				return
			}
			var in sync.WaitGroup
			for g := 0; g < b.By; g++ {
				in.Add(1)
				go func() {
					defer in.Done()
					for j := g; j < b.N; j += b.By {
						one(fmt.Sprint("b", k, "g", g), b.By)
					}
				}()
			}
			in.Wait()
		}()
	}
	wg.Wait()
	time.Sleep(3 * time.Second)
	at := now()
	rep.Close() // once more
	rep.Report(tr.StartSpan("late").(*jaeger.Span))
	if d := now() - at; d > 0 {
		return hx.Fail("reporting and closing after the close took %v", d)
	}
	time.Sleep(3 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case bad != "":
		return hx.Fail("%s", bad)
	case s.bad != "":
		return hx.Fail("%s", s.bad)
	case s.over:
		return hx.Fail("two calls of the sender at the same time")
	case len(s.last) < 2 || s.last[len(s.last)-1] != "c" || s.last[len(s.last)-2] != "f":
		return hx.Fail("the last calls of the sender are %v", s.last[max(len(s.last)-5, 0):])
	case closedLen != len(s.last):
		return hx.Fail("closing returned after %d of %d calls of the sender", closedLen, len(s.last))
	}
	// delivered once, in order, as sampled
	seen := map[string]bool{}
	last := map[string]int{}
	for _, n := range s.names {
		switch {
		case seen[n]:
			return hx.Fail("%s was delivered twice", n)
		case order[n] == 0:
			return hx.Fail("a span %q was delivered", n)
		case !sampled[n]:
			return hx.Fail("%s was delivered and should not have been sampled", n)
		case order[n] < last[group[n]]:
			return hx.Fail("%s was delivered after %d", n, last[group[n]])
		}
		seen[n] = true
		last[group[n]] = order[n]
	}
	lost := 0
	for n := range order {
		if !sampled[n] || seen[n] {
			continue
		}
		lost++
		if must[n] {
			return hx.Fail("%s was not delivered", n)
		}
	}
	if sc.Prob == 100 && int(dropped.n) > lost {
		return hx.Fail("%d spans counted as dropped, %d were not delivered", dropped.n, lost)
	}
	if after := len(order) - reported; sc.Prob == 100 && int(dropped.n) < lost-after {
		return hx.Fail("%d spans counted as dropped, %d were not delivered", dropped.n, lost)
	}
	_ = namesAtEnd
	// while it is idle the sender is flushed once a second
	idle := time.Duration(0)
	for _, b := range append(s.busy, [2]time.Duration{closeBegin, closeBegin}) {
		if b[0] > closeBegin {
			break
		}
		if b[0]-idle > time.Second {
			return hx.Fail("nothing happened between %v and %v, not even a flush", idle, b[0])
		}
		idle = b[1]
	}
	quick := true
	for _, d := range append(append([]int(nil), sc.App...), sc.Flu...) {
		quick = quick && d == 0
	}
	if quick {
		for i, f := range s.flush[:len(s.flush)-1] {
			if f != time.Duration(i+1)*time.Second {
				return hx.Fail("flushes at %v", s.flush)
			}
		}
		if want := int(closeBegin / time.Second); len(s.flush) != want+1 {
			return hx.Fail("flushes at %v, closed at %v", s.flush, closeBegin)
		}
		if closeEnd != closeBegin {
			return hx.Fail("closing took %v", closeEnd-closeBegin)
		}
	} else {
		nt = true
		lab["slow sender"] = true
		// under load, too, a flush is due every second and comes between two spans: the reporter
		// takes what is ready by chance, so forty spans in a row are as good as never
		due, run := time.Second, 0
		for i, b := range s.busy {
			for due+time.Second <= b[0] && run == 0 {
				due += time.Second
			}
			switch {
			case s.last[i] == "f":
				for due <= b[0] {
					due += time.Second
				}
				run = 0
			case s.last[i] == "a" && b[0] > due:
				if run++; run > 40 {
					return hx.Fail("forty spans were handed over since %v and none of them flushed: flushes at %v", due, s.flush)
				}
			}
		}
	}
	if waiting > 0 {
		nt = true
		lab["spans waiting at the close"] = true
	}
	if len(sc.Errs)+len(sc.FErrs) > 0 && len(s.names) > 0 {
		nt = true
		lab["sender errors"] = true
	}
	if lost > 0 {
		lab["spans dropped"] = true
	}
	if len(sc.Close) > 1 {
		lab["closed again"] = true
	}
	lab[fmt.Sprintf("sampling %d%%", sc.Prob)] = true
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}
