package clu

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/uber/jaeger-client-go"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T04

type tnode struct { // one call or send, and what its handler does
	To   int     `json:"to"`  // the actor, -1 nobody
	How  string  `json:"how"` // id, any, local
	Send bool    `json:"send"`
	Msg  string  `json:"msg"` // new, ctx (a new message in the context of the old), same
	Do   string  `json:"do"`  // ok, err, panic
	Kids []tnode `json:"kids,omitempty"`
}

type troot struct {
	From  int   `json:"from"`
	Span  bool  `json:"span"`  // the caller has a span of its own
	Stuck bool  `json:"stuck"` // the handler does not return and the caller gives up
	T     tnode `json:"t"`
}

type scnT04 struct {
	Nodes  []string `json:"nodes"` // on, anon, off, bare: with tracer, with a tracer that is not told the node, without, with a tracer that makes no call spans
	Jaeger bool     `json:"jaeger"`
	At     []int    `json:"at"` // node of each actor, actor i has the type ty<i>
	Roots  []troot  `json:"roots"`
}

func genTree(rt *rapid.T, n, lo, depth int, top bool) tnode {
	t := tnode{To: rapid.IntRange(lo, n-1).Draw(rt, "to"), How: rapid.SampledFrom([]string{"id", "id", "any", "local"}).Draw(rt, "how"), Send: rapid.IntRange(0, 3).Draw(rt, "send") == 0,
		Msg: rapid.SampledFrom([]string{"new", "ctx", "same"}).Draw(rt, "msg"), Do: rapid.SampledFrom([]string{"ok", "ok", "ok", "err", "panic"}).Draw(rt, "do")}
	if top {
		t.Msg = "new"
	}
	if rapid.IntRange(0, 9).Draw(rt, "nobody") == 0 {
		t.To = -1
		return t
	}
	if t.To+1 >= n || depth == 0 {
		return t
	}
	for k := rapid.IntRange(0, 3).Draw(rt, "kids"); k > 0; k-- {
		c := genTree(rt, n, t.To+1, depth-1, false)
		if c.Msg == "same" && k > 1 { // hands the message on: the last thing the handler does
			c.Msg = "ctx"
		}
		t.Kids = append(t.Kids, c)
	}
	return t
}

func genT04(rt *rapid.T) scnT04 {
	sc := scnT04{Jaeger: rapid.Bool().Draw(rt, "jaeger")}
	for k := rapid.SampledFrom([]int{1, 2, 2, 3}).Draw(rt, "nodes"); k > 0; k-- {
		sc.Nodes = append(sc.Nodes, rapid.SampledFrom([]string{"on", "on", "on", "on", "anon", "off", "bare"}).Draw(rt, "kind"))
	}
	n := rapid.IntRange(1, 6).Draw(rt, "actors")
	for i := 0; i < n; i++ {
		sc.At = append(sc.At, rapid.IntRange(0, len(sc.Nodes)-1).Draw(rt, "at"))
	}
	for k := rapid.IntRange(1, 3).Draw(rt, "roots"); k > 0; k-- {
		r := troot{From: rapid.IntRange(0, len(sc.Nodes)-1).Draw(rt, "from"), Span: rapid.IntRange(0, 2).Draw(rt, "span") == 0,
			T: genTree(rt, n, 0, 3, true)}
		if rapid.IntRange(0, 7).Draw(rt, "stuck") == 0 {
			r.Stuck, r.T.Send, r.T.Kids = true, false, nil
		}
		sc.Roots = append(sc.Roots, r)
	}
	return sc
}

func TestT04(t *testing.T) {
	hx.Check(t, "T04", "a trace had several calls or crossed nodes, or a traced call failed", genT04, func(t *testing.T, sc scnT04) hx.Out { return runT04(sc) })
}

// rec is a finished span, of whichever tracer.
type rec struct {
	id, parent, trace string // parent "" for none
	op                string
	tags              map[string]any
	node              int
}

// tracers of one kind, one for each node.
type trc struct {
	mock *mocktracer.MockTracer
	jrep *jaeger.InMemoryReporter
	ot   opentracing.Tracer
	fac  tracer.SpanFactory // nil: no call spans
	node int
}

func (t *trc) GetSpan(strategy string) (tracer.ISpan, error) {
	if strategy != span.SystemCall || t.fac == nil {
		return nil, errors.New("no factory")
	}
	return t.fac(t.ot)
}
func (t *trc) GetTracing() any { return t.ot }

// strict is the recording tracer with the interface's rule that there is no
// context when there is an error; the tracer returns an invalid one.
type strict struct{ *mocktracer.MockTracer }

func (s strict) Extract(f, c any) (opentracing.SpanContext, error) {
	x, err := s.MockTracer.Extract(f, c)
	if err != nil {
		return nil, err
	}
	return x, nil
}

func newTrc(jgr bool, node int, calls, anon bool) *trc {
	t := &trc{node: node}
	if jgr {
		t.jrep = jaeger.NewInMemoryReporter()
		t.ot, _ = jaeger.NewTracer(fmt.Sprint("svc", node), jaeger.NewConstSampler(true), t.jrep)
	} else {
		t.mock = mocktracer.New()
		t.ot = strict{t.mock}
	}
	if calls && anon {
		t.fac = span.CreateCallSpan()
	} else if calls {
		t.fac = span.CreateCallSpan(span.WithNodeID(ndn(node)))
	}
	return t
}

func (t *trc) finished() []rec {
	var rs []rec
	if t.mock != nil {
		for _, s := range t.mock.FinishedSpans() {
			r := rec{id: fmt.Sprint(s.SpanContext.SpanID), trace: fmt.Sprint(s.SpanContext.TraceID), op: s.OperationName, tags: s.Tags(), node: t.node}
			if s.ParentID != 0 {
				r.parent = fmt.Sprint(s.ParentID)
			}
			rs = append(rs, r)
		}
		return rs
	}
	for _, x := range t.jrep.GetSpans() {
		s := x.(*jaeger.Span)
		c := s.SpanContext()
		r := rec{id: c.SpanID().String(), trace: c.TraceID().String(), op: s.OperationName(), tags: s.Tags(), node: t.node}
		if c.ParentID() != 0 {
			r.parent = c.ParentID().String()
			for _, f := range s.References() {
				if f.Type != opentracing.ChildOfRef {
					r.parent = fmt.Sprintf("reference of another sort (%d) to %s", f.Type, r.parent)
				}
			}
		}
		rs = append(rs, r)
	}
	return rs
}

// spanOf names the span of a context.
func spanOf(ctx context.Context) (id, trace string) {
	s := opentracing.SpanFromContext(ctx)
	if s == nil {
		return "", ""
	}
	switch c := s.Context().(type) {
	case mocktracer.MockSpanContext:
		return fmt.Sprint(c.SpanID), fmt.Sprint(c.TraceID)
	case jaeger.SpanContext:
		return c.SpanID().String(), c.TraceID().String()
	}
	return "?", "?"
}

// tdone is what became of one call or send.
type tdone struct {
	t        *tnode
	from     int
	parent   string // the span of the message before
	ptrace   string
	issued   bool
	returned bool
	err      error
	res      string
	runs     []string // at which actor, with which message
	at       int      // node of the run
	span     string   // seen by the handler
	strace   string
	stuck    bool
}

func runT04(sc scnT04) hx.Out {
	lab := hx.Labels{}
	nt := false
	plain, o := runTraced(sc, false, lab, &nt)
	if o.Err != nil || o.Infra != nil || o.Labels != nil {
		return o
	}
	traced, o := runTraced(sc, true, lab, &nt)
	if o.Err != nil || o.Infra != nil || o.Labels != nil {
		return o
	}
	for ev, p := range plain {
		q := traced[ev]
		show := func(d *tdone) string {
			return fmt.Sprintf("made %v, error %v, response %q, handled %v", d.issued, d.err, d.res, d.runs)
		}
		if a, b := show(p), show(q); a != b {
			return hx.Fail("%s (%+v): without tracing %s; with tracing %s", ev, *p.t, a, b)
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}

func runTraced(sc scnT04, tracing bool, lab hx.Labels, nt *bool) (map[string]*tdone, hx.Out) {
	bg := context.Background()
	var mu sync.Mutex
	dones := map[string]*tdone{}
	trees := map[string]*tnode{}
	free := map[string]chan struct{}{} // closed when the caller has given up
	var number func(t *tnode, ev string, st bool)
	number = func(t *tnode, ev string, st bool) {
		trees[ev] = t
		dones[ev] = &tdone{t: t, stuck: st}
		free[ev] = make(chan struct{})
		for k := range t.Kids {
			number(&t.Kids[k], fmt.Sprintf("%s.%d", ev, k), false)
		}
	}
	for i := range sc.Roots {
		number(&sc.Roots[i].T, fmt.Sprintf("e%d", i), sc.Roots[i].Stuck)
	}
	issue := func(ev string, from int, m *msg.Wrapper, call, send func(id, ty, ev string, m *msg.Wrapper) error) {
		t := trees[ev]
		id, ty := idn(t.To), tyn(t.To)
		if t.To < 0 {
			id, ty = "nobody", "tynobody"
		}
		switch t.How {
		case "any":
			id = def.SymbolWildcard
		case "local":
			id = def.SymbolLocalFirst
		}
		mu.Lock()
		d := dones[ev]
		d.issued, d.from = true, from
		d.parent, d.ptrace = spanOf(m.Ctx)
		mu.Unlock()
		var err error
		if t.Send {
			err = send(id, ty, ev, m)
		} else {
			err = call(id, ty, ev, m)
		}
		mu.Lock()
		defer mu.Unlock()
		d.returned, d.err = true, err
		if !t.Send && t.Msg == "new" && !d.stuck { // was waited for
			d.res = "none"
			if m.Res != nil {
				d.res = string(m.Res.Body)
			}
		}
	}
	var specs []hb.Spec
	for i := range sc.At {
		specs = append(specs, hb.Spec{Ty: tyn(i), Weight: 1, New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) {
				for ev, t := range trees {
					a.OnEvent(ev, func(ac core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
							mu.Lock()
							d := dones[ev]
							h := mw.Req.Header
							d.at = sc.At[i]
							d.runs = append(d.runs, fmt.Sprintf("%s body %q token %q origin %q %q", ac.ID(), mw.Req.Body, h.Token, h.OrgActorID, h.OrgActorType))
							d.span, d.strace = spanOf(mw.Ctx)
							mu.Unlock()
							if d.stuck {
								<-free[ev]
								return nil
							}
							mw.Res.Body = []byte("answer to " + ev)
							for k := range t.Kids {
								kev := fmt.Sprintf("%s.%d", ev, k)
								m := mw
								switch t.Kids[k].Msg {
								case "new":
									m = msg.NewBuilder(bg).WithReqHeader(&router.Header{ID: kev, Token: kev}).WithReqBody([]byte("body of " + kev)).Build()
								case "ctx":
									m = msg.NewBuilder(mw.Ctx).WithReqHeader(&router.Header{ID: kev, Token: kev}).WithReqBody([]byte("body of " + kev)).Build()
								}
								issue(kev, sc.At[i], m, ac.Call, ac.Send)
							}
							switch t.Do {
							case "err":
								return errors.New("handler error")
							case "panic":
								panic("handler panic")
							}
							return nil
						}}
					})
				}
			})
		}})
	}
	w := hb.New(specs...)
	defer w.Close()
	ports := hb.FreePorts(len(sc.Nodes))
	if len(sc.Nodes) == 1 {
		ports[0] = 0
	}
	var nodes []*hb.Nod
	trcs := make([]*trc, len(sc.Nodes))
	for i, kind := range sc.Nodes {
		var opts []core.NodeOption
		if tracing && kind != "off" {
			trcs[i] = newTrc(sc.Jaeger, i, kind == "on" || kind == "anon", kind == "anon")
			opts = append(opts, core.NodeWithTracer(trcs[i]))
		}
		nodes = append(nodes, w.Node(ndn(i), "127.0.0.1", ports[i], opts...))
	}
	for i, n := range sc.At {
		if _, err := nodes[n].Reg(tyn(i), idn(i)); err != nil {
			return nil, hx.Fail("registering %s: %v", idn(i), err)
		}
	}
	user := newTrc(sc.Jaeger, -1, false, false)
	var wg sync.WaitGroup
	for i := range sc.Roots {
		r := &sc.Roots[i]
		ev := fmt.Sprintf("e%d", i)
		ctx := bg
		if r.Stuck {
			wg.Wait()
		}
		if r.Span && tracing {
			ctx = opentracing.ContextWithSpan(ctx, user.ot.StartSpan("user"))
		}
		cancel := func() {}
		if r.Stuck {
			ctx, cancel = context.WithTimeout(ctx, 40*time.Millisecond)
		}
		m := msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: ev, Token: ev}).WithReqBody([]byte("body of " + ev)).Build()
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			issue(ev, r.From, m, nodes[r.From].Sys.Call, nodes[r.From].Sys.Send)
			cancel()
			if !r.Stuck && time.Since(t) > 4*time.Second {
				mu.Lock()
				dones[ev].err = fmt.Errorf("slow")
				mu.Unlock()
			}
		}()
		if r.Stuck { // the next calls would wait behind it
			wg.Wait()
			close(free[ev])
		}
	}
	wg.Wait()
	// what is under way comes to an end
	settled := func() bool {
		for _, d := range dones {
			if d.issued && (!d.returned || d.err == nil && len(d.runs) == 0) {
				return false
			}
		}
		for ev, d := range dones {
			if len(d.runs) > 0 && !d.stuck {
				for k := range d.t.Kids {
					if !dones[fmt.Sprintf("%s.%d", ev, k)].issued {
						return false
					}
				}
			}
		}
		return true
	}
	for i := 0; i < 3000; i++ {
		mu.Lock()
		ok := settled()
		if ok && tracing {
			n, want := 0, 0
			for _, t := range trcs {
				if t != nil {
					n += len(t.finished())
				}
			}
			for ev := range dones {
				want += len(chain(sc, dones[ev]))
			}
			ok = n >= want
		}
		mu.Unlock()
		if ok {
			break
		}
		time.Sleep(time.Millisecond)
	}
	for _, n := range nodes {
		n.Exit()
	}
	mu.Lock()
	defer mu.Unlock()
	for ev, d := range dones {
		if d.err != nil && d.err.Error() == "slow" {
			return nil, hx.Out{Infra: errors.New("a call took too long")}
		}
		if d.stuck && d.issued && d.t.To >= 0 {
			if d.err == nil {
				return nil, hx.Fail("%s: the caller's deadline passed without an error", ev)
			}
			d.err = errors.New("gave up")
			if len(d.runs) == 0 { // the call came to its end before
				return nil, hx.Out{Labels: []string{"too slow to judge"}}
			}
		}
	}
	if tracing {
		if err := judgeSpans(sc, trcs, dones, lab, nt); err != nil {
			return nil, hx.Out{Err: err}
		}
	}
	return dones, hx.Out{}
}

// link is one expected span, counted from the caller's side.
type link struct {
	node int
	kind string // call, client, server
	root bool   // continues nothing
}

// chain is what one call or send has to leave, in order.
func chain(sc scnT04, d *tdone) []link {
	if !d.issued {
		return nil
	}
	var ls []link
	f := sc.Nodes[d.from]
	has := d.parent != ""
	add := func(n int, k string) { ls = append(ls, link{n, k, !has}); has = true }
	if f == "on" || f == "anon" {
		add(d.from, "call")
	}
	if d.t.To < 0 || sc.At[d.t.To] == d.from {
		return ls
	}
	if f != "off" {
		add(d.from, "client")
	} else {
		has = false
	}
	to := sc.At[d.t.To]
	if sc.Nodes[to] != "off" {
		add(to, "server")
		if sc.Nodes[to] == "on" || sc.Nodes[to] == "anon" {
			add(to, "call")
		}
	}
	return ls
}

func judgeSpans(sc scnT04, trcs []*trc, dones map[string]*tdone, lab hx.Labels, nt *bool) error {
	by := map[string]rec{}
	calls := map[string][]rec{} // by node and event
	n := 0
	for _, t := range trcs {
		if t == nil {
			continue
		}
		for _, r := range t.finished() {
			if _, twice := by[r.id]; twice {
				return fmt.Errorf("span %s (%s) was finished twice", r.id, r.op)
			}
			by[r.id] = r
			n++
			if ev, ok := r.tags["event"].(string); ok {
				k := fmt.Sprintf("%d/%s", r.node, ev)
				calls[k] = append(calls[k], r)
			}
		}
	}
	want := 0
	for ev, d := range dones {
		ls := chain(sc, d)
		want += len(ls)
		if len(ls) == 0 {
			continue
		}
		method := "call"
		if d.t.Send {
			method = "send"
		}
		id, ty := idn(d.t.To), tyn(d.t.To)
		if d.t.To < 0 {
			id, ty = "nobody", "tynobody"
		}
		switch d.t.How {
		case "any":
			id = def.SymbolWildcard
		case "local":
			id = def.SymbolLocalFirst
		}
		what := fmt.Sprintf("%s (%s of %s from %s, nodes %v)", ev, method, id, ndn(d.from), sc.Nodes)
		// the call span at the caller
		if ls[0].kind == "call" {
			rs := calls[fmt.Sprintf("%d/%s", d.from, ev)]
			if len(rs) != 1 {
				return fmt.Errorf("%s: %d finished spans at the caller: %v", what, len(rs), rs)
			}
			r := rs[0]
			if r.parent != d.parent || d.parent != "" && r.trace != d.ptrace {
				return fmt.Errorf("%s: its span is a child of %q in trace %s, that of the message is %q in %s", what, r.parent, r.trace, d.parent, d.ptrace)
			}
			if fmt.Sprint(r.tags["method"]) != method || fmt.Sprint(r.tags["tarActor"]) != ty || fmt.Sprint(r.tags["id"]) != id || sc.Nodes[d.from] == "on" && fmt.Sprint(r.tags["node"]) != ndn(d.from) {
				return fmt.Errorf("%s: its span is tagged %v", what, r.tags)
			}
			if d.err != nil {
				*nt = true
				lab["failed call"] = true
			}
		}
		if len(d.runs) == 0 {
			continue
		}
		// from the span the handler saw up to the one of the message
		cur, trace := d.span, d.strace
		if ls[len(ls)-1].kind == "client" { // the receiver traces nothing
			if cur != "" {
				return fmt.Errorf("%s: the handler on a node without tracer saw the span %s", what, cur)
			}
			continue
		}
		remote := false
		for i := len(ls) - 1; i >= 0; i-- {
			l := ls[i]
			r, ok := by[cur]
			if !ok {
				return fmt.Errorf("%s: its span %d (%s on %s) is %q, which was not finished", what, i, l.kind, ndn(l.node), cur)
			}
			kind := fmt.Sprint(r.tags["span.kind"])
			if kind == "<nil>" {
				kind = "call"
			}
			if kind != l.kind || r.node != l.node || r.trace != trace {
				return fmt.Errorf("%s: its span %d is a %s on node %d in trace %s, it has to be a %s on node %d in trace %s", what, i, kind, r.node, r.trace, l.kind, l.node, trace)
			}
			if kind == "call" && fmt.Sprint(r.tags["event"]) != ev {
				return fmt.Errorf("%s: the handler ran in the span of %v", what, r.tags)
			}
			if kind != "call" {
				remote = true
				if !strings.EqualFold(r.op, "/router.Acceptor/routing") {
					return fmt.Errorf("%s: %s span named %q", what, kind, r.op)
				}
			}
			if (r.parent == "") != l.root {
				return fmt.Errorf("%s: its span %d (%s on %s) has the parent %q", what, i, kind, ndn(l.node), r.parent)
			}
			cur = r.parent
			if l.root { // there was none, or it was not passed on
				if d.parent != "" {
					cur = "cut"
				}
				break
			}
		}
		if cur != "cut" && cur != d.parent {
			return fmt.Errorf("%s: the trace of the handler begins at %q, the message had %q", what, cur, d.parent)
		}
		if remote {
			*nt = true
			lab["trace across nodes"] = true
		}
		if cur == "cut" {
			lab["trace begins at the receiver"] = true
		}
		if strings.Contains(ev, ".") {
			*nt = true
			lab["nested "+d.t.Msg] = true
		}
		lab[method] = true
	}
	if n != want {
		var l []string
		for _, r := range by {
			l = append(l, fmt.Sprintf("%s on %d event %v kind %v", r.op, r.node, r.tags["event"], r.tags["span.kind"]))
		}
		return fmt.Errorf("%d finished spans, %d calls and sends have to leave %d: %v", n, len(dones), want, l)
	}
	return nil
}
