package light

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/uber/jaeger-client-go"
	"github.com/uber/jaeger-client-go/testutils"
	"github.com/uber/jaeger-client-go/thrift"
	j "github.com/uber/jaeger-client-go/thrift-gen/jaeger"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T10

type tspan struct {
	Parent int    `json:"parent"` // -1: a trace of its own
	Call   bool   `json:"call"`   // through the span of system calls
	Name   string `json:"name"`
	Tags   []int  `json:"tags"` // value 0..7 by key k<i>
	Open   bool   `json:"open"` // never finished
	Order  int    `json:"order"`
}

type scnT10 struct {
	UDP     bool    `json:"udp"`
	Service string  `json:"service"`
	Prob    int     `json:"prob"` // per cent, -1: default
	Sampler string  `json:"sampler"`
	Node    string  `json:"node"`
	Dup     bool    `json:"dup"` // another factory of the same name, which comes second
	By      int     `json:"by"`  // goroutines that finish them
	Refuse  int     `json:"refuse"`
	Spans   []tspan `json:"spans"`
	Facs    []int   `json:"facs,omitempty"` // more factories, by the number of their name, that give errors of their own
	Each    bool    `json:"each,omitempty"` // every one in an option of its own
}

// names that are not the same
var facNames = []string{"fac", "Fac", "fac ", " fac", "fac.", "FAC", "fa", "", "ſac", "fac\x00", span.SystemCall + " ", "Braid.system.call.span"}

func genT10(rt *rapid.T) scnT10 {
	sc := scnT10{UDP: rapid.IntRange(0, 3).Draw(rt, "udp") == 0, Service: rapid.SampledFrom([]string{"", "svc", "a service", "a service with a name of some length: 服务/αβγ"}).Draw(rt, "svc"),
		Prob:    rapid.SampledFrom([]int{-1, 100, 100, 50, 10, 0}).Draw(rt, "prob"),
		Sampler: rapid.SampledFrom([]string{"", "", jaeger.SamplerTypeConst, jaeger.SamplerTypeProbabilistic}).Draw(rt, "sampler"),
		Node:    rapid.SampledFrom([]string{"", "n1"}).Draw(rt, "node"), Dup: rapid.Bool().Draw(rt, "dup"), By: rapid.IntRange(1, 3).Draw(rt, "by"), Refuse: -1}
	if !sc.UDP && rapid.IntRange(0, 3).Draw(rt, "ref") == 0 {
		sc.Refuse = rapid.IntRange(0, 5).Draw(rt, "refuse")
	}
	if rapid.Bool().Draw(rt, "more") {
		sc.Facs = rapid.SliceOfN(rapid.IntRange(0, len(facNames)-1), 1, 8).Draw(rt, "facs")
		sc.Each = rapid.Bool().Draw(rt, "each")
	}
	n := rapid.IntRange(1, 20).Draw(rt, "spans")
	if rapid.IntRange(0, 9).Draw(rt, "many") == 0 {
		n = rapid.IntRange(30, 60).Draw(rt, "nmany")
	}
	for i := 0; i < n; i++ {
		sc.Spans = append(sc.Spans, tspan{Parent: rapid.IntRange(-1, i-1).Draw(rt, "parent"), Call: rapid.Bool().Draw(rt, "call"), Name: rapid.SampledFrom([]string{"op", "another op", "操作", ""}).Draw(rt, "name"),
			Tags: rapid.SliceOfN(rapid.IntRange(0, 7), 0, 4).Draw(rt, "tags"), Open: rapid.IntRange(0, 7).Draw(rt, "open") == 5, Order: rapid.IntRange(0, 100).Draw(rt, "order")})
	}
	return sc
}

func tval(v int) any {
	return []any{"text", "", 7, int64(-9), 1.5, true, false, "长"}[v]
}

func thriftTag(t *j.Tag) string {
	switch t.VType {
	case j.TagType_STRING:
		return fmt.Sprintf("%v", *t.VStr)
	case j.TagType_BOOL:
		return fmt.Sprintf("%v", *t.VBool)
	case j.TagType_LONG:
		return fmt.Sprintf("%v", *t.VLong)
	case j.TagType_DOUBLE:
		return fmt.Sprintf("%v", *t.VDouble)
	}
	return "?"
}

func TestT10(t *testing.T) {
	hx.Check(t, "T10", "a trace of several spans of which some were finished", genT10, func(_ *testing.T, sc scnT10) hx.Out { return runT10(sc) })
}

func runT10(sc scnT10) hx.Out {
	var mu sync.Mutex
	var batches []*j.Batch
	posts, refused := 0, 0
	var broken error
	opts := []tracer.Option{}
	var agent *testutils.MockAgent
	if sc.UDP {
		var err error
		agent, err = testutils.StartMockAgent()
		if err != nil {
			return hx.Out{Infra: err}
		}
		defer agent.Close()
		opts = append(opts, tracer.WithUDP(agent.SpanServerAddr()))
	} else {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			body, err := io.ReadAll(r.Body)
			mu.Lock()
			defer mu.Unlock()
			posts++
			b := &j.Batch{}
			if err == nil {
				buf := thrift.NewTMemoryBuffer()
				buf.Write(body)
				err = b.Read(context.Background(), thrift.NewTBinaryProtocolTransport(buf))
			}
			if err != nil && broken == nil {
				broken = err
			}
			if posts-1 == sc.Refuse {
				refused += len(b.Spans)
				w.WriteHeader(503)
				return
			}
			batches = append(batches, b)
			w.WriteHeader(202)
		}))
		defer srv.Close()
		opts = append(opts, tracer.WithHTTP(srv.URL+"/api/traces"))
	}
	service := "braid"
	if sc.Service != "" {
		service = sc.Service
		opts = append(opts, tracer.WithServiceName(service))
	}
	prob := 1.0
	if sc.Prob >= 0 {
		prob = float64(sc.Prob) / 100
		opts = append(opts, tracer.WithProbabilistic(prob))
	}
	if sc.Sampler != "" {
		opts = append(opts, tracer.WithSamplerType(sc.Sampler))
	}
	node := "unknown"
	var sopts []span.SpanOption
	if sc.Node != "" {
		node = sc.Node
		sopts = append(sopts, span.WithNodeID(node))
	}
	opts = append(opts, tracer.WithSpanFactory(tracer.TracerFactory{Name: span.SystemCall, Factory: span.CreateCallSpan(sopts...)}))
	if sc.Dup {
		opts = append(opts, tracer.WithSpanFactory(tracer.TracerFactory{Name: "other", Factory: span.CreateCallSpan()},
			tracer.TracerFactory{Name: span.SystemCall, Factory: span.CreateCallSpan(span.WithNodeID("second"))}))
	}
	own := map[string]error{}
	var facs []tracer.TracerFactory
	for i, k := range sc.Facs {
		err := fmt.Errorf("factory %d", i)
		if _, ok := own[facNames[k]]; !ok {
			own[facNames[k]] = err
		}
		facs = append(facs, tracer.TracerFactory{Name: facNames[k], Factory: func(interface{}) (tracer.ISpan, error) { return nil, err }})
	}
	if sc.Each {
		for _, f := range facs {
			opts = append(opts, tracer.WithSpanFactory(f))
		}
	} else if len(facs) > 0 {
		opts = append(opts, tracer.WithSpanFactory(facs...))
	}
	tr := tracer.BuildWithOption(opts...)
	for _, n := range facNames {
		want := own[n]
		if want == nil {
			want = tracer.ErrFactoryNotExist
		}
		if _, err := tr.GetSpan(n); !errors.Is(err, want) {
			return hx.Fail("of factories %v a span under the name %q: %v, want %v", sc.Facs, n, err, want)
		}
	}
	ot, ok := tr.GetTracing().(opentracing.Tracer)
	if !ok {
		return hx.Fail("the tracing is a %T", tr.GetTracing())
	}
	if _, err := tr.GetSpan("nobody's"); !errors.Is(err, tracer.ErrFactoryNotExist) {
		return hx.Fail("a span of an unknown strategy: %v", err)
	}
	type open struct {
		s    tspan
		ctx  context.Context
		end  func()
		sc   jaeger.SpanContext
		par  *jaeger.SpanContext
		tags map[string]string
		name string
	}
	var all []*open
	for _, s := range sc.Spans {
		o := &open{s: s, tags: map[string]string{}, name: s.Name}
		ctx := context.Background()
		if s.Parent >= 0 {
			o.par = &all[s.Parent].sc
			ctx = all[s.Parent].ctx
		}
		var set func(k string, v any)
		if s.Call {
			sp, err := tr.GetSpan(span.SystemCall)
			if err != nil {
				return hx.Fail("a span of system calls: %v", err)
			}
			if sp.GetID() != "" {
				return hx.Fail("a span that has not begun has the id %q", sp.GetID())
			}
			sp.SetTag("early", 1)
			if len(s.Tags)%2 == 1 {
				sp.End(ctx) // nothing has begun
			}
			o.ctx = sp.Begin(ctx)
			o.end = func() { sp.End(o.ctx) }
			set = sp.SetTag
			o.name = "System.call"
			if s.Parent < 0 {
				o.name = "System.call.root"
			}
			o.tags["node"] = node
			if id := opentracing.SpanFromContext(o.ctx).Context().(jaeger.SpanContext).TraceID().String(); sp.GetID() != id {
				return hx.Fail("a span of trace %s says it belongs to %q", id, sp.GetID())
			}
		} else {
			sp, c := opentracing.StartSpanFromContextWithTracer(ctx, ot, s.Name)
			o.ctx = c
			o.end = sp.Finish
			set = func(k string, v any) { sp.SetTag(k, v) }
		}
		o.sc = opentracing.SpanFromContext(o.ctx).Context().(jaeger.SpanContext)
		for i, v := range s.Tags {
			k := fmt.Sprintf("k%d", i)
			set(k, tval(v))
			o.tags[k] = fmt.Sprint(tval(v))
		}
		all = append(all, o)
	}
	var fin []*open
	for _, o := range all {
		if !o.s.Open {
			fin = append(fin, o)
		}
	}
	sort.SliceStable(fin, func(a, b int) bool { return fin[a].s.Order < fin[b].s.Order })
	var wg sync.WaitGroup
	for g := 0; g < sc.By; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(fin); i += sc.By {
				fin[i].end()
			}
		}()
	}
	wg.Wait()
	sampler, _ := jaeger.NewProbabilisticSampler(prob)
	want := map[jaeger.SpanID]*open{}
	for _, o := range fin {
		in := prob > 0
		if s, _ := sampler.IsSampled(o.sc.TraceID(), ""); !s {
			in = false
		}
		if in {
			want[o.sc.SpanID()] = o
		}
	}
	cl, ok := tr.(interface{ Close() })
	if !ok {
		return hx.Fail("the tracer cannot be closed")
	}
	cl.Close()
	got := func() []*j.Batch {
		mu.Lock()
		defer mu.Unlock()
		if sc.UDP {
			return agent.GetJaegerBatches()
		}
		return batches
	}
	count := func() int {
		n := 0
		for _, b := range got() {
			n += len(b.Spans)
		}
		return n
	}
	if sc.UDP { // still on its way
		for t := time.Now(); count() < len(want) && time.Since(t) < 5*time.Second; {
			time.Sleep(200 * time.Microsecond)
		}
	}
	mu.Lock()
	if broken != nil {
		mu.Unlock()
		return hx.Fail("the collector cannot read what it gets: %v", broken)
	}
	mu.Unlock()
	seen := map[jaeger.SpanID]bool{}
	for _, b := range got() {
		if b.Process.ServiceName != service {
			return hx.Fail("spans of service %q arrive as those of %q", service, b.Process.ServiceName)
		}
		for _, s := range b.Spans {
			id := jaeger.SpanID(uint64(s.SpanId))
			o := want[id]
			if o == nil {
				return hx.Fail("span %v (%s) arrives, which was not to be sent", id, s.OperationName)
			}
			if seen[id] {
				return hx.Fail("span %v (%s) arrives twice", id, s.OperationName)
			}
			seen[id] = true
			if s.OperationName != o.name {
				return hx.Fail("span %q arrives as %q", o.name, s.OperationName)
			}
			if uint64(s.TraceIdLow) != o.sc.TraceID().Low || uint64(s.TraceIdHigh) != o.sc.TraceID().High {
				return hx.Fail("span %q arrives in another trace", o.name)
			}
			par := uint64(0)
			if o.par != nil {
				par = uint64(o.par.SpanID())
				if o.par.TraceID() != o.sc.TraceID() {
					return hx.Fail("span %q is not in the trace of its parent", o.name)
				}
			}
			if uint64(s.ParentSpanId) != par {
				return hx.Fail("span %q arrives as a child of %x, it is one of %x", o.name, s.ParentSpanId, par)
			}
			tags := map[string]string{}
			for _, t := range s.Tags {
				tags[t.Key] = thriftTag(t)
			}
			for k, v := range o.tags {
				if tags[k] != v {
					return hx.Fail("span %q: tag %s is %q, it was set to %q", o.name, k, tags[k], v)
				}
			}
			if _, ok := tags["early"]; ok {
				return hx.Fail("span %q has a tag from before it began", o.name)
			}
		}
	}
	if len(seen)+refused != len(want) {
		return hx.Fail("%d of %d spans arrive (%d refused by the collector)", len(seen), len(want), refused)
	}
	l := hx.Labels{}
	l.Add(sc.UDP, "udp")
	l.Add(!sc.UDP, "http")
	l.Add(len(want) == 0, "none sampled")
	l.Add(len(want) > 0 && len(want) < len(fin), "some sampled")
	l.Add(len(want) > 0 && len(want) == len(fin), "all sampled")
	l.Add(refused > 0, "collector refused some")
	return hx.Out{NonTrivial: len(all) > 1 && len(want) > 0, Labels: l.List()}
}
